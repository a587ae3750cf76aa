import z3, math
_cache={}
def syms(f):
    k=f.get_id()
    if k in _cache: return _cache[k][1]
    s=set(); seen=set(); st=[f]
    while st:
        e=st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
            continue
        if z3.is_app(e):
            d=e.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED: s.add(d.name())
            st.extend(e.children())
    _cache[k]=(f,s)
    return s
def rank(pc,goal,p=0.5,c=2.0,cap=60):
    S=[syms(f) for f in pc]
    freq={}
    for s in S:
        for x in s: freq[x]=freq.get(x,0)+1
    w=lambda x: 1+2/math.log(freq.get(x,1)+1)
    rel=set(syms(goal)); chosen=[]; left=set(range(len(pc)))
    while left and len(chosen)<cap:
        new=[]
        for i in left:
            r=[x for x in S[i] if x in rel]; n=[x for x in S[i] if x not in rel]
            if not S[i]: m=1
            elif not r: m=0
            else:
                a=sum(w(x) for x in r); m=a/(a+len(n))
            if m>=p: new.append((m,i))
        if not new: 
            p=p*0.8
            if p<0.05: break
            continue
        new.sort(reverse=True)
        for m,i in new:
            if len(chosen)>=cap: break
            chosen.append(i); left.discard(i); rel|=S[i]
        p=p+(1-p)/c
    return sorted(chosen)
