#!/usr/bin/env python3
"""Mutation campaign: mutates /repo's sources one place at a time in a scratch copy and records
which check, if any, reports the change. A development tool: no check uses it.

  mutants.py list                      print the mutants
  mutants.py run DIR OUT START STEP    run every STEP-th mutant from START in scratch DIR,
                                       appending one line of JSON per mutant to OUT
"""
import glob, json, os, random, re, shutil, subprocess, sys

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'src/modem/vara.rs': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 S01 S02 S03 S04 S05 S06 N03 X02 X01 A01 A04'.split(),
    'src/parser.rs': 'C02 C04 X01 X02 F01'.split(),
    'src/types.rs': 'C04 C06 N02 N03 A04 X02'.split(),
    'src/main.rs': 'A01 A02 A03 A04 X01 X02'.split(),
    'src/rig/elecraft/kx3.rs': 'R01 R02 R03 A01 X01 X02'.split(),
    'src/crc16.rs': 'F01 F02 F04'.split(),
    'src/lzhuf.rs': 'F04 F03 F01 F02 X02'.split(),
    'src/fbb.rs': 'F01 F02 F04 N02 X01 X02'.split(),
}
SWAPS = [
    ('==', ['!=']), ('!=', ['==']), ('<=', ['<', '>']), ('>=', ['>', '<']),
    (' < ', [' <= ', ' > ']), (' > ', [' >= ', ' < ']), (' && ', [' || ']), (' || ', [' && ']),
    (' + ', [' - ']), (' - ', [' + ']), (' += ', [' -= ', ' = ']), (' -= ', [' += ']),
    (' * ', [' + ']), (' / ', [' * ']), (' % ', [' / ']), (' & ', [' | ']), (' | ', [' & ']),
    (' << ', [' >> ']), (' >> ', [' << ']), ('>>= ', ['<<= ']), ('<<= ', ['>>= ']),
    ('true', ['false']), ('false', ['true']), ('.wrapping_add(', ['.wrapping_sub(']),
    ('.is_empty()', ['.len() == 1']), ('break', ['continue']), ('is_ok()', ['is_err()']),
    ('.is_some()', ['.is_none()']), ('.is_none()', ['.is_some()']), ('complete::', ['streaming::']),
    ('streaming::', ['complete::']), ('take_until1', ['take_until']), ('Poll::Ready(())', ['Poll::Pending']),
    ('push_back', ['push_front']), ('pop_front', ['pop_back']), ('borrow_and_update', ['borrow']),
    ('write_all(', ['write(']), ('Some(', ['None.or(']), ('many0', ['many1']), ('many1', ['many0']),
    ('biased;', ['']), ('..=', ['..']), ('first', ['last']), ('saturating_sub', ['wrapping_sub']),
    ('Transmit', ['Receive']), ('Receive', ['Transmit']), ('Ok,', ['Wrong,']), ('Wrong,', ['Ok,']),
    ('Registered', ['Unregistered']), ('insert(', ['remove(']), ('origin', ['target']), ('flush', ['shutdown']),
]


def blank(line):
    """The line with comments and format strings made unmatchable, for choosing places."""
    line = re.sub(r'//.*', lambda m: '\0' * len(m.group()), line)
    return line


def mutants():
    out = []
    for f in FILES:
        text = open(os.path.join(REPO, f)).read().split('\n')
        testing = False
        for n, line in enumerate(text):
            s = line.strip()
            if testing:
                testing = line != '}'
                continue
            if re.match(r'#\[cfg\((test|all\(plusendi_sim|plusendi_sim)', s):
                testing = 'test' in s and 'mod ' in ' '.join(text[n:n + 2])
                continue
            if s.startswith(('//', 'use ', 'pub use', 'mod ', '#[', '#![')) or not s or 'tracing::' in s:
                continue
            b = blank(line)
            seen = set()
            if re.match(r'^[\s0-9a-fA-FxX_,]+$', line) and n % 29 != 0:
                continue  # a row of a table: a few are enough

            def add(new, what):
                if new != line and new not in seen:
                    seen.add(new)
                    out.append(dict(file=f, line=n + 1, old=line.strip(), new=new.strip(), text=new, what=what))
            for a, reps in SWAPS:
                start = 0
                while (i := b.find(a, start)) >= 0:
                    start = i + len(a)
                    if re.match(r'\w', a[0]) and i and re.match(r'\w', b[i - 1]):
                        continue
                    if re.match(r'\w', a[-1]) and start < len(b) and re.match(r'\w', b[start]):
                        continue
                    for r in reps:
                        add(line[:i] + r + line[i + len(a):], f'{a.strip()} -> {r.strip()}')
            for m in re.finditer(r'(?<![\w.#])(0x[0-9a-fA-F_]+|\d+)(?![\w.]*["\'])(?=(usize|u8|u16|u32|i32|\b))', b):
                v = int(m.group(1).replace('_', ''), 0)
                for w in {v + 1, max(v - 1, 0)} - {v}:
                    add(line[:m.start(1)] + str(w) + line[m.end(1):], f'{v} -> {w}')
            if re.match(r'^[^{}]*;\s*$', b) and not s.startswith(('let ', 'pub ', 'type ', 'const ', 'static ', 'fn ', 'struct', 'return')):
                add('', 'statement removed')
            if s.startswith('return') and s.endswith(';'):
                add('', 'return removed')
            m = re.match(r'^(\s*(?:\} else )?(?:if|while) )(?!let)(.*)( \{\s*)$', line)
            if m:
                add(f'{m.group(1)}!({m.group(2)}){m.group(3)}', 'condition negated')
                add(f'{m.group(1)}false && ({m.group(2)}){m.group(3)}', 'condition false')
                if 'if ' in m.group(1):
                    add(f'{m.group(1)}true || ({m.group(2)}){m.group(3)}', 'condition true')
            for m in re.finditer(r'b?"([^"{}\\]{1,20})"', b):
                if 'tag(' in line or 'write' in line or '=>' in line:
                    q = m.group()
                    add(line[:m.start()] + q[:-2] + '"' + line[m.end():], 'literal shortened')
                    add(line[:m.start()] + q[:-1] + 'X"' + line[m.end():], 'literal extended')
            if s.endswith(',') and re.match(r'^\w+,$', s):
                add('', 'element removed')
    return out


def run(dir, out, start, step):
    ms = mutants()
    done = set()
    for f in glob.glob(os.path.dirname(os.path.abspath(out)) + '/out*.jsonl'):
        done |= {(r['file'], r['line'], r['new'], r['what']) for r in map(json.loads, open(f))}
    os.makedirs(dir, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '/target', REPO + '/', dir + '/repo/'], check=False) if shutil.which('rsync') else None
    if not os.path.exists(dir + '/repo/src'):
        shutil.copytree(REPO, dir + '/repo', ignore=shutil.ignore_patterns('target'))
    for d in ('harness', 'shims'):
        shutil.rmtree(f'{dir}/verif/{d}', ignore_errors=True)
        shutil.copytree(f'{VERIF}/{d}', f'{dir}/verif/{d}')
    env = {k: v for k, v in os.environ.items() if k not in ('RUST_BACKTRACE', 'RUST_LOG')}
    env.update(CARGO_TARGET_DIR=dir + '/verif/.build', RUSTFLAGS='--cfg plusendi_sim -Awarnings', CARGO_NET_OFFLINE='true')
    for f in FILES:
        shutil.copy(f'{REPO}/{f}', f'{dir}/repo/{f}')
    scale = float(os.environ.get('MUT_SCALE', '0.15'))
    full = json.load(open(f'{VERIF}/tools/quick_counts.json')) if os.path.exists(f'{VERIF}/tools/quick_counts.json') else {}
    order = list(range(start, len(ms), step))
    random.Random(1).shuffle(order)
    for i in order:
        m = ms[i]
        if (m['file'], m['line'], m['new'], m['what']) in done or m['what'] in ('element removed', 'literal extended'):
            continue
        src = open(f'{REPO}/{m["file"]}').read().split('\n')
        src[m['line'] - 1] = m['text']
        open(f'{dir}/repo/{m["file"]}', 'w').write('\n'.join(src))
        res = dict(index=i, **{k: m[k] for k in ('file', 'line', 'old', 'new', 'what')})
        b = subprocess.run(['cargo', 'build', '--offline', '--message-format', 'short'], cwd=dir + '/verif/harness', env=env, capture_output=True, text=True)
        if b.returncode:
            res['result'] = 'nobuild'
        else:
            res['result'] = 'SURVIVED'
            for p in FILES[m['file']]:
                n = int({'F': 50000, 'X': 200000, 'R': 1000000}.get(p[0], 480000) * scale)
                try:
                    c = subprocess.run([dir + '/verif/.build/debug/simcheck', 'check', '--property', p, '--dir', dir + '/verif', '--seed', '1', '--tier', 'quick', '--runs', str(n)],
                                       capture_output=True, text=True, timeout=300, env=env, errors='replace')
                except subprocess.TimeoutExpired:
                    res['result'] = f'timeout {p}'
                    break
                if c.returncode != 0:
                    line = next((l for l in c.stdout.split('\n') if l.startswith('VIOLATION')), '')
                    res['result'] = f'{p} exit {c.returncode}'
                    res['violation'] = line[:200]
                    if c.returncode == 1:
                        break
            if res['result'] == 'SURVIVED':
                t = subprocess.run(['cargo', 'test', '--offline', '--lib', '-q'], cwd=dir + '/repo', capture_output=True, text=True, timeout=300, errors='replace',
                                   env={k: v for k, v in env.items() if k not in ('RUSTFLAGS',)} | {'CARGO_TARGET_DIR': dir + '/target'})
                res['tests'] = 'pass' if t.returncode == 0 else 'fail'
        shutil.copy(f'{REPO}/{m["file"]}', f'{dir}/repo/{m["file"]}')
        open(out, 'a').write(json.dumps(res) + '\n')


if sys.argv[1] == 'list':
    for i, m in enumerate(mutants()):
        print(i, f"{m['file']}:{m['line']}", m['what'], '|', m['new'])
else:
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
