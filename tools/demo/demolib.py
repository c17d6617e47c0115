"""Helpers for the demonstrations: scripted USI engines as real child processes."""
import atexit
import json
import os
import shutil
import stat
import sys
import tempfile

sys.path.insert(0, os.getcwd())
TMP = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, TMP, True)

ENGINE = r'''#!%s
import json, os, sys, time
d = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(os.path.join(d, 'conf.json')))
log = open(os.path.join(d, 'log'), 'a')
state = os.path.join(d, 'n')
def say(s):
    sys.stdout.write(s + '\n'); sys.stdout.flush()
def reply(r):
    for x in r if isinstance(r, list) else [r]:
        if isinstance(x, (int, float)):
            time.sleep(x)
        elif x == 'DIE':
            os._exit(1)
        elif x.startswith('TORN '):
            sys.stdout.write(x[5:]); sys.stdout.flush(); os._exit(1)
        else:
            say(x)
n = int(open(state).read()) if os.path.exists(state) else 0
ponder = None
for line in sys.stdin:
    line = line.strip()
    log.write(line + '\n'); log.flush()
    w = line.split()
    if line == 'usi':
        say('id name ' + conf['name']); say('usiok')
    elif line == 'isready':
        say('readyok')
    elif w[:1] == ['go']:
        r = conf['replies'][n] if n < len(conf['replies']) else conf.get('rest', 'bestmove resign')
        n += 1
        open(state, 'w').write(str(n))
        if 'ponder' in w:
            ponder = r
        else:
            reply(r)
    elif line in ('ponderhit', 'stop') and ponder is not None:
        reply(ponder); ponder = None
    elif line == 'quit':
        break
'''


def engine(name, replies, rest='bestmove resign'):
    d = os.path.join(TMP, name)
    os.makedirs(d)
    json.dump(dict(name=name, replies=replies, rest=rest), open(os.path.join(d, 'conf.json'), 'w'))
    p = os.path.join(d, 'engine')
    open(p, 'w').write(ENGINE % sys.executable)
    os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    return p


def log(path):
    return open(os.path.join(os.path.dirname(path), 'log')).read().split('\n')


def moves(line, colour):
    """Replies of one side for a line of USI moves."""
    return ['bestmove ' + m for m in line[colour::2]]
