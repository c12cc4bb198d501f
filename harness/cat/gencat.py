#!/usr/bin/env python3
"""Generates gen_types.go: random struct types with all the forms of embedding
that reflect.StructOf cannot build (unexported, pointers, named kinds)."""
import random, re
R = random.Random(20240607)
names = ['A','B','C','D','X','Y','Name','NAME','ID','Id','Key','Value','URL','Ab','AB','Sk','Kk']
low = ['a','b','x','name','hid']
tags = ['a','b','x','id','ID','key','name','Name','url','é','ſs','K','a b','-',',','-,','x,omitempty',',omitempty','id,string',',string','y,omitempty,string','a<b>&','semi;c','n.m','$x','bad\\\\q','']
scal = ['int','int8','uint16','int64','uint64','string','bool','float64','float32','interface{}','[]int','[]byte','map[string]int','*int','*string','[2]int8','NInt','NStr','json.Number','json.RawMessage','struct{}','[]string','map[string]interface{}','**int8','*bool']
quotable = {'int','int8','uint16','int64','uint64','string','bool','float64','float32','*int','*string','NInt','NStr','*bool'}
out=[]
types=[]   # (name, exported, level)
def mk(i):
    exported = R.random()<0.65
    nm = ('G%03d' if exported else 'g%03d')%i
    nf = R.choice([0,1,1,2,2,3,3,4,5,6,8,10,11,12,15])
    used=set(); lines=[]
    emb=set()
    ne = R.choice([0,0,1,1,2,3]) if types else 0
    for _ in range(ne):
        t=R.choice(types[-40:])
        if t[0].lower() in emb: continue
        emb.add(t[0].lower())
        ptr = R.random()<0.4
        tag=''
        if R.random()<0.2 and t[0][0]=='G': tag=' `json:"%s"`'%R.choice(['emb','a','X',',omitempty','-'])
        lines.append('\t%s%s%s'%('*' if ptr else '',t[0],tag))
    for _ in range(nf):
        unexp = R.random()<0.08
        n = R.choice(low if unexp else names+['F%d'%R.randrange(30)])
        if n in used: continue
        used.add(n)
        ty=R.choice(scal)
        tag=''
        if not unexp and R.random()<0.5:
            tg=R.choice(tags)
            if R.random()<0.2: tg='t%d'%R.randrange(20)
            tag=' `json:"%s"`'%tg
            if R.random()<0.15: tag=' `xml:"q" json:"%s" alt:"z%d,omitempty"`'%(tg,R.randrange(5))
            if R.random()<0.05: tag=' `alt:"w"`'
        lines.append('\t%s %s%s'%(n,ty,tag))
    R.shuffle(lines)
    types.append((nm,exported,0))
    out.append('type %s struct {\n%s\n}\n'%(nm,'\n'.join(lines)))
N=220
for i in range(N): mk(i)
exp=[t[0] for t in types]
with open('gen_types.go','w') as f:
    f.write('// Code generated by gencat.py. DO NOT EDIT.\n\npackage cat\n\nimport (\n\t"encoding/json"\n\t"reflect"\n)\n\n')
    f.write('var _ json.Number\n\n')
    f.write(re.sub(r'json:("(?:[^"\\]|\\.)*")', r'json:\1 jz:\1', '\n'.join(out)))
    f.write('\n// Generated lists the generated types.\nvar Generated = []reflect.Type{\n')
    for e in exp: f.write('\treflect.TypeOf(%s{}),\n'%e)
    f.write('}\n')
