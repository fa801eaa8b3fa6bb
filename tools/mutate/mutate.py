#!/usr/bin/env python3
"""Mutation testing of the checks: make small changes to a scratch copy of /repo, one at a time, and
see which of them no check notices.

mutate.py list FILE...                 print all mutants
mutate.py run OUT WORKERS [--all] FILE...   run them (phases of moderate size; --all: complete quick tiers)
mutate.py again OUT WORKERS                 run the survivors with complete quick tiers
"""
import json, os, re, subprocess, sys, shutil, queue, threading

ROOT = '/tmp/mutate'
T2 = ['C05', 'C07', 'C21', 'C04', 'C03', 'C01', 'C06', 'C02']
CFF = ['C12', 'C19', 'C18', 'C14', 'C16', 'C15', 'C20', 'C09', 'C13', 'C17', 'C11', 'C08', 'C10']

SWAPS = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' << ', ' >> '), (r' >> ', ' << '),
    (r' & ', ' | '), (r' \| ', ' & '), (r' <= ', ' < '), (r' < ', ' <= '), (r' < ', ' > '), (r' >= ', ' > '), (r' > ', ' >= '),
    (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\.\.=', '..'), (r'(?<!\.)\.\.(?![.=\]])', '..='),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])(?<!\w!)', ''), (r'\bu8\b', 'i8'), (r'\bu16\b', 'u8'), (r'\bu16\b', 'i16'),
    (r'\bi16\b', 'u16'), (r'\bi32\b', 'u32'), (r'\bi32\b', 'i16'), (r'\bu32\b', 'u16'), (r'\bu64\b', 'u32'), (r'\bf64\b', 'f32'), (r'\bu32\b', 'i32'),
    (r'Ordering::Less', 'Ordering::Greater'), (r'\bnext\(\)', 'last()'), (r'\.rev\(\)', ''), (r'\.checked_add\(', '.checked_sub('),
    (r'rotate_right', 'rotate_left'), (r'rem_euclid', 'wrapping_rem'), (r'\bmaybe_equal\b', 'equal'), (r'\bmaybe_modulo\b', 'modulo'),
    (r'\bmodulo\b', 'maybe_modulo'), (r'\bequal\b', 'maybe_equal'), (r'\.saturating_', '.wrapping_'), (r'\?;', ';'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
    (r'SeekFrom::Start', 'SeekFrom::Current'), (r'Some\((\w+)\) => Some\(\1\)', r'Some(\1) => None'),
    (r'\blocal\b', 'global'), (r'\bglobal\b', 'local'), (r'\bleft\b', 'right'), (r'\bright\b', 'left'),
]
NUMBER = re.compile(r"(?<![\w.'])(0x[0-9a-fA-F]+|\d+)(?![\w.])|(?<![\w.])(\d+\.\d+)")


def code_lines(path):
    lines = open(path).read().split('\n')
    for i, line in enumerate(lines):
        if '#[cfg(test)]' in line:
            break
        s = line.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use '):
            continue
        yield i, line


def mutants(path, stride=1):
    lines = open(path).read().split('\n')
    out = []
    seen = set()

    def put(i, new, what, upto=None):
        key = (i, new, upto)
        if new != lines[i] and key not in seen:
            seen.add(key)
            out.append({'file': path, 'line': i, 'new': new, 'what': what})
    for i, line in code_lines(path):
        table = bool(re.match(r'^\s*\(?(0x)?\d+\)? => ("|\d)', line)) or bool(re.match(r'^\s*\(?\d+, ', line))
        if table and (i % 9 or os.environ.get('MUTATE_NO_TABLES')):
            continue
        for pattern, new in SWAPS:
            for m in re.finditer(pattern, line):
                put(i, line[:m.start()] + m.expand(new) + line[m.end():], f'{pattern} -> {new}')
        for m in NUMBER.finditer(line):
            text = m.group(0)
            if '.' in text:
                for new in ('0.0', repr(float(text) + 1.0)):
                    put(i, line[:m.start()] + new + line[m.end():], f'{text} -> {new}')
                continue
            value = int(text, 0)
            for new in {value + 1, value - 1, 0}:
                if new >= 0 and new != value:
                    put(i, line[:m.start()] + str(new) + line[m.end():], f'{text} -> {new}')
        s = line.strip()
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'use ', 'mod ', 'const ')):
            put(i, '', 'delete statement')
        if s.startswith('return') and s.endswith(';'):
            put(i, '', 'delete return')
        if re.search(r'=> .*,$', s) and not s.endswith('{'):
            put(i, '', 'delete arm')
    return out


def setup(worker):
    home = f'{ROOT}/w{worker}'
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    subprocess.run(['cp', '-a', '/repo', f'{home}/repo'], check=True)
    shutil.rmtree(f'{home}/repo/target', ignore_errors=True)
    subprocess.run(['cp', '-a', '/verif/harness', f'{home}/harness'], check=True)
    toml = open(f'{home}/harness/Cargo.toml').read().replace('"/repo"', f'"{home}/repo"')
    toml = toml.replace('incremental = false', 'incremental = true').replace('opt-level = 2', 'opt-level = 1')
    open(f'{home}/harness/Cargo.toml', 'w').write(toml)
    # Large phases only if asked for, and less patience.
    run = open(f'{home}/harness/src/run.rs').read()
    run = run.replace('HANG_SECONDS: u64 = 20', 'HANG_SECONDS: u64 = 5')
    run = run.replace('if self.stopped() {', 'if self.stopped() || total > std::env::var("MC_BRIEF").map_or(u64::MAX, |text| text.parse().unwrap()) {', 1)
    open(f'{home}/harness/src/run.rs', 'w').write(run)
    return home


def run_one(home, cores, m, everything):
    path = m['file'].replace('/repo', home + '/repo', 1)
    original = open(path).read()
    lines = original.split('\n')
    lines[m['line']] = m['new']
    open(path, 'w').write('\n'.join(lines))
    os.utime(path)
    env = dict(os.environ, CARGO_TARGET_DIR=home + '/target', CARGO_NET_OFFLINE='true', MC_ROOT=home, VERIF_TIER='quick', VERIF_SEED='1')
    try:
        r = subprocess.run(['taskset', '-c', cores, 'cargo', 'build', '--offline', '--release'], cwd=home + '/harness', env=env,
                           capture_output=True, text=True)
        if r.returncode:
            return 'nobuild'
        checks = T2 if '/type2/' in path else CFF
        if path.endswith('lib.rs') or path.endswith('tape.rs'):
            checks = T2 + CFF
        caught = []
        rounds = [(c, str(1 << 40) if everything else '200000') for c in checks]
        for c, brief in rounds:
            env['MC_BRIEF'] = brief
            try:
                r = subprocess.run(['taskset', '-c', cores, home + '/target/release/mc', 'check', c], env=env, capture_output=True, text=True,
                                   timeout=600)
                if r.returncode == 1:
                    caught.append(c)
                elif r.returncode:
                    caught.append(c + '?')
            except subprocess.TimeoutExpired:
                caught.append(c + '!')
            if caught:
                break
        if caught:
            return ' '.join(caught)
        if not everything:
            return 'SURVIVED'
        r = subprocess.run(['cargo', 'test', '--offline'], cwd=home + '/repo', env=dict(env, CARGO_TARGET_DIR=home + '/test'), capture_output=True, text=True)
        passed = len(re.findall(r'\.\.\. ok$', r.stdout, re.M))
        return f'SURVIVED (tests passed: {passed})'
    finally:
        open(path, 'w').write(original)


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            for m in mutants(f):
                print(f"{m['file']}:{m['line'] + 1}: {m['what']}: {m['new'].strip()}")
        return
    out, workers, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    everything = '--all' in files
    files = [f for f in files if f != '--all']
    done = set()
    if sys.argv[1] == 'again':
        results = [json.loads(l) for l in open(out)]
        last = {(m['file'], m['line'], m['new']): m for m in results}
        todo_again = [m for m in last.values() if m['result'] == 'SURVIVED']
        everything = True
    elif os.path.exists(out):
        done = {tuple(json.loads(l)[k] for k in ('file', 'line', 'new')) for l in open(out)}
    todo = queue.Queue()
    for f in files:
        for m in mutants(f):
            if (m['file'], m['line'], m['new']) not in done:
                todo.put(m)
    if sys.argv[1] == 'again':
        for m in todo_again:
            todo.put(m)
    print(todo.qsize(), 'mutants', flush=True)
    lock = threading.Lock()

    def work(w):
        home = setup(w)
        per = 8 // workers
        cores = ','.join(str(c) for c in range(w * per, w * per + per))
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                break
            result = run_one(home, cores, m, everything)
            with lock, open(out, 'a') as f:
                f.write(json.dumps(dict(m, result=result)) + '\n')
        shutil.rmtree(home, ignore_errors=True)
    threads = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in threads]
    [t.join() for t in threads]


main()
