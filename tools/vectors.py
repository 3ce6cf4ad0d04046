"""Extracts the RFC 9497 appendix A vectors into mc/src/vectors.txt (one line per vector)."""
import re
t=open('/repo/src/tests/cfrg_vectors.rs').read().split('r#"')[1].split('"#')[0]
out=[];suite=mode=None;hdr={};cur=None;last=None
for l in t.split('\n'):
    m=re.match(r'A\.\d+\.\s+(\S+)',l)
    if m: suite=m[1]; continue
    m=re.match(r'A\.\d+\.\d+\.\s+(\S+) Mode',l)
    if m: mode=m[1]; hdr={}; cur=hdr; continue
    if re.match(r'A\.\d+\.\d+\.\d+\.',l):
        cur=dict(hdr,suite=suite,mode=mode); out.append(cur); continue
    m=re.match(r'\s+(\w+) = (.*)$',l)
    if m: last=m[1]; cur[last]=m[2].strip(); continue
    if l.strip(): cur[last]+=l.strip()
open('/verif/mc/src/vectors.txt','w').write(''.join(' '.join(f'{k}={v}' for k,v in sorted(d.items()))+'\n' for d in out))
print(len(out))
