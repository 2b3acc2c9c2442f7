"""Translate the Python 2 sources of a pykrylov tree to Python 3.

translate_tree(repo, dest) writes dest/pykrylov/... (tests left out) and dest/_py2rt.py.
The same lib2to3 fixers and the same classic-division fixer as the project's own build are
used (fix_classic_div.py and py2rt.py are copies of it). Runs under any Python with lib2to3.
Returns a list of (file, error) for files that could not be translated; these become modules
raising SyntaxError, as in the project's build.
"""
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def sources(repo):
    out = []
    top = os.path.join(repo, 'pykrylov')
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'build', '.git'))
        for n in sorted(files):
            if n.endswith('.py') and n != 'setup.py':
                out.append(os.path.relpath(os.path.join(d, n), repo))
    return out


def _tool():
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    import logging
    logging.disable(logging.WARNING)
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    return RefactoringTool(get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div'])


def translate_one(tool, repo, rel, dest):
    src, dst = os.path.join(repo, rel), os.path.join(dest, rel)
    err = None
    try:
        raw, _ = tool._read_python_source(src)
        if raw and not raw.endswith('\n'):
            raw += '\n'
        text = str(tool.refactor_string(raw, src)) if raw.strip() else raw
        compile(text, src, 'exec', dont_inherit=True)
    except Exception as e:  # noqa
        err = '%s: %s' % (type(e).__name__, e)
        text = 'raise SyntaxError(%r)\n' % (rel + ': ' + err)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w', encoding='utf-8') as f:
        f.write(re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+', r'\1\2utf-8', text))
    return err


def _job(args):
    repo, rels, dest = args
    tool = _tool()
    return [(r, translate_one(tool, repo, r, dest)) for r in rels]


def translate_tree(repo, dest, jobs=8):
    import multiprocessing as mp
    rels = sources(repo)
    rels.sort(key=lambda r: -os.path.getsize(os.path.join(repo, r)))
    groups = [[] for _ in range(jobs)]
    load = [0] * jobs
    for r in rels:
        i = load.index(min(load))
        groups[i].append(r)
        load[i] += os.path.getsize(os.path.join(repo, r)) + 200
    with mp.get_context('fork').Pool(jobs) as pool:
        res = pool.map(_job, [(repo, g, dest) for g in groups if g], chunksize=1)
    shutil.copyfile(os.path.join(HERE, 'py2rt.py'), os.path.join(dest, '_py2rt.py'))
    return [(r, e) for g in res for r, e in g if e is not None]


if __name__ == '__main__':
    bad = translate_tree(sys.argv[1], sys.argv[2])
    for r, e in bad:
        print('%s: %s' % (r, e), file=sys.stderr)
    sys.exit(1 if bad else 0)
