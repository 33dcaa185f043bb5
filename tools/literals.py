"""numbers and words that /repo's sources mention, and what of them is new since tools/base.json was written.
Only used to aim the bounded replay; it decides nothing."""
import collections, hashlib, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def strip(s):
    """source text without comments and without its tests"""
    s = re.sub(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else ' ', s, flags=re.S)
    i = s.find('#[cfg(test)]')
    return s[:i] if i >= 0 else s

def mentioned(s):
    c = collections.Counter()
    for m in re.finditer(r'b?"((?:\\.|[^"\\])*)"', s):
        w = m.group(1)
        for part in [w] + re.split(r'\{[^}]*\}', w) if '{' in w else [w]:
            if part: c['w' + part] += 1
    s = re.sub(r'"(?:\\.|[^"\\])*"', '""', s)
    for m in re.finditer(r"'(\\?[^'\n]|\\u\{\w+\})'", s): c['w' + m.group(1)] += 1
    for m in re.finditer(r'\b[ui](8|16|32|64|128)::MAX\b|\b[ui]size::MAX\b', s): pass
    t = re.sub(r'\b([ui])(8|16|32|64)::MAX\b', lambda m: str(2 ** (int(m.group(2)) - (m.group(1) == 'i')) - 1), s)
    t = re.sub(r'\b[ui]size::MAX\b', str(2 ** 64 - 1), t)
    t = re.sub(r'\bas\s+[ui](8|16|32|64|size)\b', ' ', t)
    t = re.sub(r'(?<=[0-9])_(?=[0-9])', '', t)
    t = re.sub(r'(?<=[0-9])_?[ui](8|16|32|64|size)\b', '', t)
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|0b[01]+|\d+)((?:\s*(?:<<|>>|\*|\+|-|/)\s*\(?\s*\d+\s*\)?)*)(?![\w.])', t):
        c['n' + m.group(1)] += 1
        if m.group(2):
            try: v = eval(m.group(1) + m.group(2).replace('/', '//'), {})
            except Exception: v = None
            if isinstance(v, int) and 0 <= v < 2 ** 64: c[f'n{v}'] += 1
    return c

def look(repo):
    c = collections.Counter(); h = {}
    for d, _, fs in sorted(os.walk(os.path.join(repo, 'src'))):
        for f in sorted(fs):
            if f.endswith('.rs'):
                p = os.path.join(d, f); s = strip(open(p, errors='replace').read())
                h[os.path.relpath(p, repo)] = hashlib.sha256(re.sub(r'\s+', ' ', s).encode()).hexdigest()
                c += mentioned(s)
    return c, h

def news(repo):
    """(numbers, words, whether the code differs from the tree the baseline was taken from)"""
    c, h = look(repo)
    base = json.load(open(V + '/tools/base.json'))
    new = c - collections.Counter(base['mentioned'])
    nums, words = set(), set()
    for k in new:
        if k[0] == 'n':
            v = int(k[1:], 0)
            if v < 2 ** 64: nums.add(v)
        else:
            try: w = json.loads('"' + re.sub(r"\\([^\"\\/bfnrtu])", r'\1', k[1:]) + '"')
            except ValueError: w = k[1:]
            words.add(w)
    # a new word's length may matter as much as its letters
    return sorted(nums), sorted(words), h != base['files']

if __name__ == '__main__':
    import subprocess, sys
    c, h = look('/repo')
    fns = json.load(open(sys.argv[1]))['slice'] if len(sys.argv) > 1 else []
    json.dump({'about': 'written by tools/literals.py from the tree the contracts were written for', 'mentioned': dict(sorted(c.items())), 'files': h, 'functions': sorted(fns)}, open(V + '/tools/base.json', 'w'), indent=0)
