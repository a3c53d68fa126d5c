"""Exact Coulomb integrals between 2D oscillator orbitals (rational arithmetic).

<pq|rs> for m*omega = 1 by Fourier transform: the pair density phi_p^* phi_r
has transform (k/2)^M exp(-k^2/4) * polynomial with rational coefficients; the
remaining integral over k is a double factorial times sqrt(pi/2).
"""
import math

import numpy as np
from fractions import Fraction as Fr
from functools import lru_cache
def nm_list(l):
    out=[];sh=0
    while len(out)<l:
        # shell sh: m = -sh, -sh+2,...,sh
        for m in range(-sh,sh+1,2): out.append(((sh-abs(m))//2,m))
        sh+=1
    return out[:l]
def lag(n,al):  # L_n^al(x) coefs
    return [Fr((-1)**i*math.comb(n+al,n-i),math.factorial(i)) for i in range(n+1)]
def pm(a,b):
    r=[Fr(0)]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]+=x*y
    return r
@lru_cache(None)
def F(np_,mp,nr,mr):
    M=abs(mr-mp); q=pm(lag(np_,abs(mp)),lag(nr,abs(mr)))
    off=(abs(mp)+abs(mr)-M)//2
    # sum_s c_s r^{2s+M}; transform r^{2s+M} e^{-r^2} J_M -> s!/2 (k/2)^M e^{-k2/4} L_s^M(k2/4)
    out=[Fr(0)]*(len(q)+off)
    for i,c in enumerate(q):
        s=i+off
        for j,d in enumerate(lag(s,M)):
            out[j]+=c*math.factorial(s)*Fr(1,2)*d*Fr(1,4**j)
    return M,out  # times (k/2)^M e^{-k2/4}, poly in k^2
def dfac(n): 
    r=1
    while n>1: r*=n;n-=2
    return r
def exact(p,q,r,s):
    if p[1]+q[1]!=r[1]+s[1]: return 0.0
    M,A=F(*p,*r);_,B=F(*q,*s)
    t=Fr(0)
    C=pm(A,B)
    for i,c in enumerate(C): t+=c*dfac(2*(i+M)-1)
    t/=4**M
    N=Fr(1)
    for n,m in (p,q,r,s): N*=Fr(math.factorial(n),math.factorial(n+abs(m)))
    return 4*math.sqrt(math.pi/2)*float(t)*math.sqrt(float(N))


def table(nm):
    """All <pq|rs> over the given list of (n, m), as floats rounded from exact
    rationals."""
    l = len(nm)
    u = np.zeros((l,) * 4)
    norm = np.array([math.sqrt(Fr(math.factorial(n),
                                  math.factorial(n + abs(m))))
                     for n, m in nm])
    groups = {}
    for p in range(l):
        for r in range(l):
            groups.setdefault(nm[r][1] - nm[p][1], []).append((p, r))
    for d, prs in groups.items():
        qss = groups.get(-d)
        if not qss:
            continue
        M = abs(d)
        rows = {}

        def scaled(pairs):
            vec = [F(*nm[a], *nm[b])[1] for a, b in pairs]
            K = max(len(v) for v in vec)
            out = []
            for v in vec:
                den = math.lcm(*[c.denominator for c in v])
                out.append(([int(c * den) for c in v] + [0] * (K - len(v)),
                            den))
            return out, K

        A, KA = scaled(prs)
        B, KB = scaled(qss)
        df = [dfac(2 * (i + M) - 1) for i in range(KA + KB)]
        # integer vectors W_i = sum_j B_j df(i+j)
        for b, (q, s) in zip(B, qss):
            W = [sum(x * df[i + j] for j, x in enumerate(b[0]) if x)
                 for i in range(KA)]
            for a, (p, r) in zip(A, prs):
                t = sum(x * w for x, w in zip(a[0], W))
                den = a[1] * b[1] * 4 ** M
                u[p, q, r, s] = t / den
    u *= 4 * math.sqrt(math.pi / 2)
    u *= np.einsum("p,q,r,s->pqrs", norm, norm, norm, norm)
    return u
