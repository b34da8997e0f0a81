#!/usr/bin/env python3
"""Mutation analysis: which small changes of /repo's sources does no check notice?
   mutate.py list [PKG...]                      counts mutants per file
   mutate.py run WORKDIR N OUT FILE...          tries up to N (0: all) mutants of each FILE in a private copy
Not a check: it only serves to find gaps in the checks.  Needs `cp -a` of /repo and /verif in WORKDIR."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mask(s):
    """same length, comments, strings, characters and preprocessor lines blanked"""
    o = list(s); i = 0; n = len(s)
    def blank(a, b):
        for k in range(a, b):
            if o[k] != '\n': o[k] = ' '
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j
            blank(i, j); i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i); j = n if j < 0 else j + 2
            blank(i, j); i = j
        elif s[i] == '"' or s[i] == "'":
            q = s[i]; j = i + 1
            while j < n and s[j] != q and s[j] != '\n':
                j += 2 if s[j] == '\\' else 1
            for k in range(i + 1, min(j, n)):
                if o[k] != '\n': o[k] = '_'
            i = j + 1
        else:
            i += 1
    m = ''.join(o)
    # preprocessor lines other than the bodies of #define
    out = []
    cont = False
    for l in m.split('\n'):
        st = l.lstrip()
        if st.startswith('#') and not st.startswith('#define'):
            out.append(' ' * len(l))
        elif st.startswith('#define'):
            k = re.match(r'\s*#define\s+\w+(\([^)]*\))?', l)
            out.append(' ' * k.end() + l[k.end():] if k else ' ' * len(l))
        else:
            out.append(l)
    return '\n'.join(out)


def closing(m, i):
    d = 0
    for k in range(i, len(m)):
        if m[k] == '(': d += 1
        elif m[k] == ')':
            d -= 1
            if d == 0: return k
    return -1


SW = [(r'(?<=[\w)\]] )<=(?= )', '<'), (r'(?<=[\w)\]] )<(?= [\w(-])', '<='), (r'(?<=[\w)\]] )>=(?= )', '>'), (r'(?<=[\w)\]] )>(?= [\w(-])', '>='),
      (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
      (r'(?<=[\w)\]]) ?\+ ?(?=[\w(])(?!\+)', ' - '), (r'(?<=[\w)\]]) ?(?<!-)-(?![->=]) ?(?=[\w(])', ' + '),
      (r'(?<=[\w)\]]) ?\*(?!=) ?(?=[\w(])', ' / '), (r'(?<=[\w)\]]) ?/(?!=) ?(?=[\w(])', ' * '),
      (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
      (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])', None),
      (r'(?<![\w.])(\d+\.\d*(?:e-?\d+)?)(?!\w)', 'F'), (r'!(?=[\w(])', ''), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'(?<=[(,= ])-(?=[\w(])', '')]


def mutants(path):
    s = open(path, errors='surrogateescape').read(); m = mask(s)
    res = []
    for pat, rep in SW:
        for x in re.finditer(pat, m):
            t = x.group(0)
            if rep is None: r = str(int(t) + 1)
            elif rep == 'F':
                try: r = repr(float(t) * 2 + (0.5 if float(t) == 0 else 0))
                except ValueError: continue
            else: r = rep
            res.append((x.start(), x.end(), r, '%s->%s' % (t.strip(), r.strip())))
    for x in re.finditer(r'\b(if|while)\s*\(', m):
        c = closing(m, x.end() - 1)
        if c < 0: continue
        for r in (['(false)', '(true)'] if x.group(1) == 'if' else ['(false)']):
            res.append((x.end() - 1, c + 1, r, '%s->%s' % (x.group(1), r)))
    # statements
    for x in re.finditer(r'(?m)^[ \t]*((?:[A-Za-z_*(][^;{}]*?)(?:\)|\w|\]))\s*;[ \t]*$', m):
        b = x.group(1)
        if re.match(r'(return|typedef|using|template|class|struct|friend|public|private|virtual|static|inline|explicit|extern|case|default|else|for|if|while|throw|const|namespace|do|operator)\b', b): continue
        if re.match(r'^[\w:<>, *&]+\s+[\w]+(\s*[=(].*)?$', b, re.S) and not re.match(r'^(delete|\*?\w+(\.|->|\[|\())', b): continue  # declarations
        res.append((x.start(1), x.end(), ';', 'delete: ' + b[:70].replace('\n', ' ')))
    for x in re.finditer(r'\breturn\s+([^;]+);', m):
        e = x.group(1).strip()
        if e in ('true', 'false') or re.match(r'^[\d.]+$', e): continue
        if re.search(r'<=|>=|==|!=|&&|\|\||^!', e): res.append((x.start(1), x.end(1), '!(%s)' % s[x.start(1):x.end(1)], 'negate return'))
    seen = set(); out = []
    for r in sorted(res):
        if (r[0], r[1], r[2]) in seen: continue
        seen.add((r[0], r[1], r[2])); out.append(r)
    return s, out


def checks_of():
    d = {}
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']: d.setdefault(f, []).append(p['id'])
    return d


EXTRA = {}


def main():
    if sys.argv[1] == 'list':
        t = 0
        for p in sys.argv[2:]:
            for dp, dn, fn in os.walk('/repo/' + p):
                if '/test' in dp: continue
                for f in sorted(fn):
                    if f.endswith(('.cpp', '.hpp', '.h')):
                        k = len(mutants(dp + '/' + f)[1]); t += k
                        print(k, os.path.relpath(dp + '/' + f, '/repo'))
        print(t); return
    w, n, out = os.path.abspath(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    repo = w + '/repo'; ver = w + '/verif'
    for a in sys.argv[5:]:
        f, ch = a.split('=')
        ch = ch.split(',')
        path = repo + '/' + f
        s, ms = mutants(path)
        rng = random.Random(f); idx = list(range(len(ms)))
        if n and len(idx) > n: idx = sorted(rng.sample(idx, n))
        for k in idx:
            a0, b0, r, what = ms[k]
            line = s.count('\n', 0, a0) + 1
            open(path, 'w', errors='surrogateescape').write(s[:a0] + r + s[b0:])
            res = 'SURVIVED'; t = time.time()
            for c in ch:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1')
                try:
                    p = subprocess.Popen(['python3', 'run.py', c], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
                    o = p.communicate(timeout=420)[0].decode(errors='replace')
                    if p.returncode == 1: res = 'killed ' + c; break
                    if p.returncode != 0:
                        res = ('nobuild' if 'BUILD FAILED' in o else 'ERROR %s %s' % (c, o.strip()[-200:].replace('\n', ' '))); break
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9); p.communicate(); res = 'TIMEOUT ' + c; break
            subprocess.run('rm -rf %s/verif/replays /tmp/vfrun_*_none' % w, shell=True)
            with open(out, 'a') as fo:
                fo.write(json.dumps([f, line, k, what, res, round(time.time() - t, 1), s.split('\n')[line - 1].strip()[:160]]) + '\n')
        open(path, 'w', errors='surrogateescape').write(s)


main()
