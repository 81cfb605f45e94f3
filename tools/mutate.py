#!/usr/bin/env python3
# mutate.py WORKER SEED SECONDS [FILE...]: random one-token changes in a copy of the repository (/tmp/mwWORKER); the ones
# that build and pass the stable tests go through the checks; the ones no check reports are logged in /tmp/mut/miss.WORKER.
import os, random, re, subprocess, sys, time, json
w, seed, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); R = '/tmp/mw' + w; B = '/tmp/mb' + w
rnd = random.Random(seed); T = os.environ.get('T', '12'); J = os.environ.get('J', '2')
VM = 'C02 C17 C03 C01 C04 C05 C07 C16 C18 C19 C06 C08 C20'.split()
CK = {'src/vm/vm_exec.c': VM, 'src/vm/vm_internal.h': VM, 'src/vm/vm_verify.c': ['C08', 'C07'], 'src/compiler/cnd_parser.c': 'C22 C02 C17 C10 C03 C01 C15 C14 C09 C18 C16 C11'.split(),
 'src/compiler/cnd_lexer.c': 'C22 C02 C10 C15 C14 C13 C17 C12'.split(), 'src/compiler/cnd_utils.c': 'C22 C02 C10 C09 C14 C15 C01'.split(), 'src/compiler/cndc.c': 'C09 C10 C14 C02'.split(), 'src/compiler/cnd_fmt.c': ['C15', 'C11'],
 'src/cli/cmd_lsp.c': ['C14', 'C13'], 'src/cli/json_binding.c': ['C12', 'C11'], 'src/cli/cmd_inspect.c': ['C21'], 'src/cli/cmd_encode.c': ['C11', 'C12'], 'src/cli/cmd_decode.c': ['C11', 'C12'], 'src/cli/cmd_fmt.c': ['C11', 'C15'],
 'src/cli/cmd_compile.c': ['C09', 'C11', 'C10'], 'src/cli/cli_helpers.c': ['C11', 'C12', 'C21'], 'src/cli/main.c': ['C11', 'C21', 'C09'], 'go/concordia.go': ['C20'], 'go/bridge.c': ['C20'], 'src/tools/hexview.c': ['C21']}
files = sys.argv[4:] or list(CK); sh = lambda c, t=900: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
if not os.path.isdir(R): sh('git clone -q /repo %s' % R)
sh('git -C %s checkout -q -- . && git -C %s pull -q --ff-only' % (R, R))
SWAP = [(r'(?<![<\-=>])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![\-=>])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'<<(?!=)', '>>'), (r'>>(?!=)', '<<'),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m[1]) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m[1]) - 1)), (r'\b0x([0-9A-Fa-f]+)\b', lambda m: hex(int(m[1], 16) ^ 1)), (r'\+=', '='), (r'\|=', '='), (r'\bcontinue;', ';'), (r'!(?!=)', ''),
 (r'\buint64_t\b', 'uint32_t'), (r'\buint32_t\b', 'uint16_t'), (r'\bsize_t\b', 'uint16_t'), (r'\bint64_t\b', 'int32_t'), (r' \* ', ' + '), (r'^(\s+)[\w>.\-\[\]\(\)\*]+ (=|\+=|\|=|&=) [^;{}]*;$', r'\1;'), (r'^(\s+)\w+\([^;{}]*\);$', r'\1;'), (r'^(\s+)[\w>.\-]+(\+\+|--);$', r'\1;'), (r'^(\s+)if \(([^{}]*)\) (return|break|continue)', r'\1if (0) \3')]
weights = [max(1, os.path.getsize(R + '/' + f)) ** .7 for f in files]
def mutant():
    while True:
        f = rnd.choices(files, weights)[0]; L = open(R + '/' + f).read().split('\n'); i = rnd.randrange(len(L)); l = L[i]
        if re.match(r'\s*(//|\*|/\*|#)', l) or 'printf' in l or 'assert' in l: continue
        code = l.split('//')[0]; p, r = rnd.choice(SWAP); ms = [m for m in re.finditer(p, code) if code[:m.start()].count('"') % 2 == 0 and code[:m.start()].count("'") % 2 == 0]
        if not ms: continue
        m = rnd.choice(ms); n = code[:m.start()] + (m.expand(r) if isinstance(r, str) and '\\' in r else r(m) if callable(r) else r) + code[m.end():]
        if n == code: continue
        L[i] = n; return f, i + 1, l.strip(), n.strip(), '\n'.join(L)
def log(name, s):
    with open('/tmp/mut/%s.%s' % (name, w), 'a') as o: o.write(s + '\n')
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable')); NS = 'unshare -m bash -c "mount --bind %s /repo && %%s"' % R
end = time.time() + secs; seen = set()
while time.time() < end:
    f, ln, a, b, text = mutant()
    if (f, ln, b) in seen: continue
    seen.add((f, ln, b)); sh('git -C %s checkout -q -- .' % R); open(R + '/' + f, 'w').write(text); d = '%s:%d\n  - %s\n  + %s' % (f, ln, a, b)
    try:
        if sh(NS % 'bash /opt/vp/build.sh').returncode: log('nobuild', d); continue
        if os.path.exists('/tmp/mut/o%s.json' % w): os.unlink('/tmp/mut/o%s.json' % w)
        sh(NS % ('timeout 100 bash /opt/vp/test.sh /tmp/mut/o%s.json' % w), 200); got = set(json.load(open('/tmp/mut/o%s.json' % w))['passed'])
    except Exception as e: log('tests', d + ' ' + str(e)[:80]); continue
    if base - got: log('tests', d); continue
    hit = None
    for p in CK[f]:
        try: r = sh('REPO=%s SIM_BUILD=%s python3 %s/check.py %s quick --time %s --jobs %s --seed %d' % (R, B, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), p, T, J, rnd.randrange(1 << 30)), 600)
        except Exception: hit = p + ' timeout'; break
        if r.returncode == 1: hit = p; break
        if r.returncode: hit = p + ' exit %d' % r.returncode; break
    if hit: log('hit', d + '  [' + hit + ']')
    else: log('miss', d)
sh('git -C %s checkout -q -- .' % R)
