"""Bounded model checking of the C extension: CBMC decides the assertions of a harness which includes the
source of /repo as it is; the inputs of a counterexample are replayed by the same harness compiled with
gcc and the address and undefined behaviour sanitizers."""
import json
import os
import resource
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction

from . import loader

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(HERE, 'cbmc')


def limit(n=None):
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard if n is None else n, hard))


class Bmc(object):
    def __init__(self, harness, source, defines, unwind, checks=('--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check')):
        self.harness, self.source, self.defines, self.unwind, self.checks = harness, source, defines, unwind, checks

    def flags(self):
        return ['-I', os.path.join(DIR, 'include'), '-DSOURCE="%s"' % os.path.join(loader.REPO, self.source)] + ['-D' + d for d in self.defines]

    def inputs(self, trace):
        out = []
        for s in trace:
            if s.get('stepType') == 'assignment' and s.get('lhs') == 'IN' and not s.get('hidden') and 'data' in s.get('value', {}):
                if s.get('sourceLocation', {}).get('function') == 'in':
                    out.append(int(s['value']['data'].rstrip('lL')))
        return {'in%03d' % k: Fraction(v) for k, v in enumerate(out)}

    # -- the harness on given inputs, natively
    def build(self, tmp):
        exe = os.path.join(tmp, 'run')
        p = subprocess.run(['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DNATIVE'] + self.flags() +
                           [os.path.join(DIR, self.harness), '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return exe if p.returncode == 0 else None

    def execute(self, exe, values):
        rep = {'status': 'ok', 'failures': [], 'exception': None, 'where': self.source, 'checked': 0, 'unclear': 0, 'reached': []}
        text = ' '.join(str(int(values[k])) for k in sorted(values))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=165')
        try:
            p = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, env=env, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            rep['status'] = 'timeout'
            return rep
        err = p.stderr.decode('utf8', 'replace')
        rep['failures'] = [l[8:] for l in err.splitlines() if l.startswith('FAILED: ')]
        rep['reached'] = [l[9:] for l in err.splitlines() if l.startswith('REACHED: ')]
        rep['checked'] = 1
        if not rep['failures'] and p.returncode == 4:
            rep['status'] = 'skip'
        elif not rep['failures'] and p.returncode != 0:
            bad = [l for l in err.splitlines() if 'ERROR: AddressSanitizer: ' in l or 'runtime error:' in l]
            if bad:
                rep['failures'] = ['memory safety: ' + bad[0].split('AddressSanitizer: ')[-1].split('runtime error: ')[-1].split(' on ')[0]]
            elif p.returncode < 0:
                rep['failures'] = ['memory safety: signal %d' % -p.returncode]
            else:
                rep['status'] = 'skip'
        return rep

    def replay(self, tier, seed, values, strict=True):
        tmp = tempfile.mkdtemp(prefix='bmc')
        try:
            exe = self.build(tmp)
            if exe is None:
                return {'status': 'skip', 'failures': [], 'exception': None, 'where': self.source, 'checked': 0, 'unclear': 0}
            return self.execute(exe, values)
        finally:
            shutil.rmtree(tmp)

    # -- deciding
    def run(self, cs, tier, seed, deadline):
        t0 = time.time()
        res = {'case': cs.name, 'prop': cs.prop, 'bounds': cs.bounds, 'paths': 0, 'complete': False, 'obligations': 0, 'proved': 0,
               'unknown': [], 'limits': [], 'unreproduced': [], 'violations': [], 'aborted': 0, 'branches': 0, 'samples': [], 'labels': {},
               'witness': {'agree': 0, 'skip': 0, 'none': 0, 'mismatch': 0, 'unclear': 0}, 'functions': [], 'atoms': 0,
               'stats': {'queries': 0, 'solver_s': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'by': {}}}
        tmp = tempfile.mkdtemp(prefix='bmc')
        try:
            self._run(cs, tmp, t0 + deadline, res)
        finally:
            shutil.rmtree(tmp)
        res['wall_s'] = round(time.time() - t0, 2)
        return res

    def _run(self, cs, tmp, end, res):
        out = os.path.join(tmp, 'out.json')
        cmd = ['cbmc', '--json-ui', '--trace'] + self.flags() + [os.path.join(DIR, self.harness)] + list(self.checks) + \
              ['--unwind', str(self.unwind), '--unwinding-assertions']
        s0 = time.time()
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.DEVNULL,
                                 preexec_fn=lambda: limit(12 << 30))
            try:
                p.wait(timeout=max(1, end - time.time() - 5))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                res['limits'].append('deadline')
                return
        try:
            msgs = json.load(open(out))
        except ValueError:
            res['limits'].append('cbmc ended early (%s)' % p.returncode)
            return
        res['stats']['solver_s'] = round(time.time() - s0, 2)
        results = [r for m in msgs if 'result' in m for r in m['result']]
        if not results:
            err = [m['messageText'] for m in msgs if m.get('messageType') == 'ERROR']
            res['limits'].append('the source is outside what the model covers: %s' % '; '.join(err)[:150])
            return
        nobody = sorted(set(m['messageText'] for m in msgs if 'no body for' in m.get('messageText', '')))
        for w in nobody[:3]:
            res['limits'].append(w)
        exe = self.build(tmp)
        if exe is None:
            res['limits'].append('the harness does not compile')
            return
        base = os.path.basename(self.source)
        res['functions'] = sorted(set('%s:%s' % (self.source, r['sourceLocation'].get('function')) for r in results
                                      if os.path.basename(r.get('sourceLocation', {}).get('file', '')) == base))
        res['complete'] = True
        seen = set()
        for r in results:
            label = r['description']
            q = res['stats']
            q['queries'] += 1
            key = 'cbmc'
            q['by'][key] = q['by'].get(key, 0) + 1
            if r['status'] == 'SUCCESS':
                q['unsat'] += 1
            elif r['status'] == 'FAILURE':
                q['sat'] += 1
            else:
                q['unknown'] += 1
            values = self.inputs(r.get('trace', [])) if r['status'] == 'FAILURE' else None
            ser = lambda: {k: str(v) for k, v in values.items()}
            if label.startswith('reach: '):
                # shown reachable, so the assertions on the way are not vacuous
                if values is None:
                    res['limits'].append('not reached: ' + label[7:])
                    continue
                rep = self.execute(exe, values)
                res['paths'] += 1
                if rep['status'] == 'ok' and not rep['failures'] and label[7:] in rep['reached']:
                    res['witness']['agree'] += 1
                    res['samples'].append({'inputs': ser(), 'reached': label[7:]})
                elif rep['failures']:
                    res['witness']['mismatch'] += 1
                    if rep['failures'][0] not in seen:
                        seen.add(rep['failures'][0])
                        res['violations'].append({'label': rep['failures'][0], 'inputs': ser(), 'replay': rep, 'found_by': 'witness of a path, replayed natively'})
                else:
                    res['witness']['skip'] += 1
                continue
            if label.startswith('model: '):
                if r['status'] != 'SUCCESS':
                    res['limits'].append('outside what the model covers: ' + label[7:])
                continue
            if os.path.basename(r.get('sourceLocation', {}).get('file', '')) == self.harness and 'dereference' in label and r['status'] == 'SUCCESS':
                res['branches'] += 1        # accesses of the models themselves
                continue
            short = label if len(label) < 90 else label[:87] + '...'
            if 'dereference failure' in label or 'bounds' in label or 'precondition' in label or 'overflow' in label:
                short = 'memory safety and arithmetic'
            res['obligations'] += 1
            lab = res['labels'].setdefault(short, [0, 0])
            lab[0] += 1
            if r['status'] == 'SUCCESS':
                res['proved'] += 1
                lab[1] += 1
            elif r['status'] != 'FAILURE':
                res['unknown'].append(short)
            elif 'unwinding assertion' in label:
                res['limits'].append('loop bound: ' + label)
            else:
                rep = self.execute(exe, values)
                if rep['failures']:
                    if rep['failures'][0] not in seen and len(res['violations']) < 6:
                        seen.add(rep['failures'][0])
                        res['violations'].append({'label': rep['failures'][0], 'inputs': ser(), 'replay': rep, 'found_by': 'solver counterexample'})
                else:
                    res['unreproduced'].append({'label': short, 'inputs': [ser()]})
