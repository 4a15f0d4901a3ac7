"""Runs TLC."""
import os
import re
import subprocess
import tempfile
import json
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(1, min(8, os.cpu_count() or 1))


class TlcError(Exception):
    pass


def start(module, cfg, env, workdir, workers=1, args=(), heap='3g', stack='64m', jvm=()):
    """Starts TLC on spec/<module>.tla in its own metadata directory."""
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    out = open(os.path.join(meta, 'out'), 'w')
    cmd = ['java', '-Xss' + stack, '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + SPEC] + list(jvm) + \
          ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(meta, 'states'),
           '-config', cfg, '-noGenerateSpecTE'] + list(args) + [module]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    p.meta, p.outfile = meta, out.name
    return p


def finish(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TlcError('TLC ran out of time')
    with open(p.outfile) as f:
        text = f.read()
    shutil.rmtree(p.meta, ignore_errors=True)
    return p.returncode, text


def stats(text):
    """(states generated, distinct states)"""
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    if not m:
        m = [(n, n) for n in re.findall(r'The number of states generated: (\d+)', text)]
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def chars_file(path):
    with open(path, 'w') as f:
        f.write('"' + ''.join('\\u%04x' % i for i in range(65536)) + '"')


BAD = re.compile(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')


def verdicts(text):
    bad = [(m.group(1), int(m.group(2)), sorted(re.findall(r'"([^"]*)"', m.group(3)))) for m in BAD.finditer(text)]
    done = DONE.search(text)
    return bad, (int(done.group(1)), int(done.group(2))) if done else None


CASE = re.compile(r'<<\s*"CASE",\s*"([^"]*)",\s*<<([^>]*)>>,\s*<<([^>]*)>>,\s*<<([^>]*)>>\s*>>')


def case_lines(text):
    """[(id, [status], [events], [well-formed events])]"""
    ints = lambda s: [int(x) for x in re.findall(r'\d+', s)]
    return [(m.group(1), re.findall(r'"(\w+)"', m.group(2)), ints(m.group(3)), ints(m.group(4))) for m in CASE.finditer(text)]
