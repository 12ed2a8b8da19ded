import json,os,subprocess,sys,shutil,re
SEED='/verif/seeded'
PRE='''import os, sys
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter('ignore')
import io, contextlib
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    import lom
    import lom.auxiliary_functions as aux
    import lom.experiments as ex
assert os.path.realpath(lom.__file__).startswith(os.path.realpath(os.getcwd()))

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)

def machine(X, L, model, factors=None, lbda=None):
    m = lom.Machine()
    d = m.add_matrix(np.array(X, dtype=np.int8), fixed=True)
    lr = quiet(m.add_layer, latent_size=L, child=d, model=model)
    if factors is not None:
        for f, v in zip(lr.factors, factors):
            f.val = np.array(v, dtype=np.int8)
    if lbda is not None:
        lr.lbda.val = lbda
        lr.lbda.fixed = True
    return m, lr

def sweeps(m, n, **k):
    quiet(m.infer, burn_in_min=0, burn_in_max=0, no_samples=n, **k)

def pm(rng, *shape):
    return (2 * (rng.random(shape) < .5) - 1).astype(np.int8)

def op(name, b):
    n, k = b.sum(axis=-1), b.shape[-1]
    v = {'AND': n == k, 'OR': n >= 1, 'XOR': n == 1}
    return v[name] if name in v else ~{'NAND': v['AND'], 'NOR': v['OR'], 'NXOR': v['XOR']}[name]

def prod(fs, model):
    # truth-table product of factors in {-1,1}
    outer, inner = model.split('-')
    K, L = len(fs), fs[0].shape[1]
    g = np.zeros([len(f) for f in fs] + [L, K], dtype=bool)
    for k, f in enumerate(fs):
        g[..., k] = (np.asarray(f) == 1).reshape([len(f) if i == k else 1 for i in range(K)] + [L])
    return 2 * op(outer, op(inner, g)).astype(int) - 1

def gain(X, fs, model, k, r, c):
    # agreements gained by having entry (r,c) of factor k on instead of off
    s = []
    for v in (1, -1):
        gs = [np.array(f) for f in fs]
        gs[k][r, c] = v
        s.append(int(((prod(gs, model) == X) & (X != 0)).sum()))
    return s[0] - s[1]

def only(lr, k, r, c):
    # leave only entry (r,c) of factor k free
    for i, f in enumerate(lr.factors):
        f.fixed = i != k
    lr.factors[k].fixed_entries = np.ones(lr.factors[k].val.shape, dtype=np.int8)
    lr.factors[k].fixed_entries[r, c] = 0

def conditionals(rng, model, K, n=150, lmax=4, top=5):
    # every entry is drawn according to the likelihood (dispersion 40: certain unless tied)
    for _ in range(n):
        L = int(rng.integers(1, lmax + 1))
        ds = rng.integers(1, top, size=K)
        fs = [pm(rng, d, L) for d in ds]
        X = pm(rng, *ds)
        m, lr = machine(X, L, model, fs, 40.)
        k = int(rng.integers(K)); r = int(rng.integers(ds[k])); c = int(rng.integers(L))
        g = gain(X, fs, model, k, r, c)
        if g == 0:
            continue
        lr.factors[k].val[r, c] = -np.sign(g)
        only(lr, k, r, c)
        sweeps(m, 1)
        assert lr.factors[k].val[r, c] == np.sign(g), (model, K, 'entry', (k, r, c), 'gain', g)
        lr.factors[k].val[r, c] = np.sign(g)
        sweeps(m, 1)
        assert lr.factors[k].val[r, c] == np.sign(g), (model, K, 'entry', (k, r, c), 'gain', g)

'''
SH='''#!/bin/bash
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null
'''
ENV=dict(os.environ,NUMBA_DISABLE_JIT='1',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',MPLCONFIGDIR='/tmp/mpl',OPENBLAS_NUM_THREADS='1')
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def plant(id,prop,edits,needs,breaks,demo,check=True,others=()):
    wt='/tmp/plant/wt_'+id
    sh('git -C /repo worktree remove --force '+wt); sh('git -C /repo worktree prune')
    r=sh('git -C /repo worktree add -q --detach %s HEAD'%wt); assert r.returncode==0,r.stderr
    try:
        fixl={}
        for f,old,new in edits:
            p=wt+'/lom/'+f
            s=open(p).read()
            n=1; uniq=not isinstance(old,tuple)
            if isinstance(old,tuple): old,n=old
            parts=s.split(old)
            assert len(parts)>n,(id,'old not found',f,old, len(parts))
            if uniq: assert len(parts)==2,(id,'old not unique',len(parts)-1)
            s=old.join(parts[:n])+new+old.join(parts[n:])
            open(p,'w').write(s)
        diff=sh('git -C %s diff'%wt).stdout
        # changed lines must be original
        cur=None
        base=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
        for l in sh('git -C %s diff -U0'%wt).stdout.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m:
                a=int(m.group(1)); c=int(m.group(2) or 1)
                if c:
                    bl=sh('git -C /repo blame -s -l -L %d,%d HEAD -- %s'%(a,a+c-1,cur)).stdout
                    for b in bl.splitlines():
                        if not b.lstrip('^').startswith(base[:30]): return print(id,'TOUCHES MY LINE',b)
        d='%s/%s'%(SEED,id); os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(PRE+demo)
        open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        a=sh('bash %s/demo.sh'%d,cwd='/repo',env=ENV); b=sh('bash %s/demo.sh'%d,cwd=wt,env=ENV)
        st='demo %d/%d'%(a.returncode,b.returncode)
        if a.returncode!=0: st+=' CLEAN-FAIL '+a.stderr[-400:]
        if b.returncode==0: st+=' NOT-SHOWN'
        else: st+=' ['+b.stderr.strip().splitlines()[-1][:80]+']'
        ok=set()
        fs=sorted(os.listdir(wt+'/tests'))
        ps=[]
        for f in fs:
            if f.startswith('test_') and f!='test_ibp.py':
                ps.append((f,subprocess.Popen('/opt/venv/bin/python -m pytest tests/%s -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -p no:xdist --randomly-seed=0 --randomly-dont-reorganize -rA </dev/null'%f,shell=True,cwd=wt,env=dict(ENV,PYTHONPATH=wt),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
        for f,p in ps:
            out=p.communicate()[0]
            for m in re.finditer(r'PASSED tests/(\w+)\.py::(\w+)',out): ok.add('tests.%s::%s'%(m.group(1),m.group(2)))
        miss=STABLE-ok
        st+=' tests:'+('ok' if not miss else 'FAIL '+str(sorted(miss)))
        res=[]
        for c in ([prop] if check else [])+list(others):
            k=sh('./run %s'%c,cwd='/verif',env=dict(os.environ,LFMV_REPO=wt,LFMV_EVIDENCE='/tmp/plant/ev_'+id,VERIF_SEED='1'))
            mm=re.search(r'^  (\S+): (.*)$',k.stdout,re.M)
            res.append('%s rc=%d %s'%(c,k.returncode,(mm.group(1)+': '+mm.group(2)[:90]) if mm else k.stdout.strip().splitlines()[-1][:120] if k.stdout.strip() else k.stderr[-200:]))
        print(id,'|',st,'|',' ; '.join(res),flush=True)
    finally:
        sh('git -C /repo worktree remove --force '+wt); shutil.rmtree('/tmp/plant/ev_'+id,ignore_errors=True)
