#!/usr/bin/env python3
"""Writes the accessor contracts (C04, C05) of every element kind from the
interface listing tools/interfaces.txt."""
import re, os
here=os.path.dirname(os.path.abspath(__file__))
out=os.path.join(here,'..','contracts','iraml')
ifs={}
cur=None
for l in open(os.path.join(here,'interfaces.txt')):
    m=re.match(r'(\w+) :',l)
    if m: cur=m.group(1); ifs[cur]=[]; continue
    if l.strip(): ifs[cur].append(l.strip())
KINDS="Any Array Bool Custom DateOnly DatetimeOnly Datetime File Integer Number Object String TimeOnly Union".split()
TYPES=[k+'Type' for k in KINDS]
EXS=[k+'Example' for k in KINDS]
SKIP={'MarshalYAML','MarshalJSON','ToYAML','ToRAML','String'}
ELEMS=[('C04',t) for t in TYPES+['IncludeType','NilType']]+[('C05',t) for t in EXS+['XML','Documentation','APISpec','Library']]
KIND=dict(Any='any',Array='array',Bool='boolean',Custom='custom',DateOnly='date-only',DatetimeOnly='datetime-only',Datetime='datetime',File='file',Integer='integer',Number='number',Object='object',String='string',TimeOnly='time-only',Union='union',Include='include',Nil='nil')
def empty(t):
    return 'raml.New%s(0).SerializeOrdered(false)'%t[5:]
def iscoll(t): return t.startswith('raml.') and t.endswith('Map')
def getters(name):
    g=[]
    for m in ifs[name]:
        x=re.match(r'(\w+)\(\) (.+)$',m)
        if x and x.group(1) not in SKIP and not x.group(1).startswith('Unset') and not x.group(2).startswith('('):
            g.append((x.group(1),x.group(2)))
    if name.endswith('Type'):
        g.append(('Required','bool'))
    return g
ALIAS={('Type','Schema')}
def aliases(name,x):
    if name.endswith('Type') and x in ('Type','Schema'): return ['Type','Schema']
    if name in('APISpec','Library') and x in ('Types','Schemas'): return ['Types','Schemas']
    return [x]
def val(gt,pt,v):
    if gt.startswith('option.'): return 'option.NewMaybe%s(&%s)'%(gt[7:],v)
    return v
def none(name,x,gt):
    if gt.startswith('option.'): return 'option.NewEmpty%s()'%gt[7:]
    if iscoll(gt): return empty(gt)
    return 'nil'
def gen(prop,name):
    gs=getters(name); gd=dict(gs)
    body=''
    obs='vc%sState'%name
    body+='// %s is what can be read from a raml.%s.\ntype %s struct {\n'%(obs,name,obs)
    for g,t in gs: body+='\t%s %s\n'%(g,t)
    body+='}\n\n'
    body+='func vcRead%s(t raml.%s) (s %s) {\n'%(name,name,obs)
    for g,t in gs:
        if g=='Required': body+='\ts.Required = t.(raml.Property).Required()\n'
        else: body+='\ts.%s = t.%s()\n'%(g,g)
    body+='\treturn\n}\n\n'
    colls=[g for g,t in gs if iscoll(t)]
    def same(skip):
        s=''
        for c in colls:
            if c not in skip:
                s+='\tvc.Assert(got.%s == raw.%s, "%s stays the same collection")\n'%(c,c,c)
        return s
    def contract(fn,params,pre,call,returns,sets,post,touched):
        b='func Vc%s_%s_%s(t raml.%s%s) {\n'%(prop,name,fn,name,''.join(', %s %s'%p for p in params))
        b+='\traw := vcRead%s(t)\n\twant := vc.Freeze(raw).(%s)\n'%(name,obs)
        b+=pre
        if returns:
            b+='\tr := %s\n\tvc.Assert(vc.Is(r, t), "returns the element it was called on")\n'%call
        else:
            b+='\t%s\n'%call
        b+='\tgot := vcRead%s(t)\n'%name
        for k,v in sets: b+='\twant.%s = %s\n'%(k,v)
        b+=same(touched)+post
        b+='\tvc.Check(got, want, "only the property itself changes")\n}\n\n'
        return b
    for m in ifs[name]:
        x=re.match(r'(Set|Unset|Override)(\w+)\((.*)\)( \S+)?$',m)
        if not x or x.group(2).startswith('MarshalRAML'): continue
        op,p,par,ret=x.groups()
        if op=='Override' : p='Type'
        if p=='Required' and op=='Unset': continue
        gt=gd.get(p)
        if gt is None:
            print('no getter for',name,m); continue
        al=aliases(name,p)
        fn=('Set' if op=='Set' else 'Unset' if op=='Unset' else 'Override')+p
        if op=='Unset':
            pre=post=''
            sets=[(a,none(name,p,gt)) for a in al]
            if iscoll(gt):
                post=''.join('\tvc.Assert(got.%s != nil, "%s is an empty collection, never a missing one")\n'%(a,a) for a in al)
            if iscoll(gt) and len(al)>1: post+='\tvc.Assert(got.%s == got.%s, "%s and %s are the same")\n'%(al[0],al[1],al[0],al[1])
            body+=contract(fn,[],pre,'t.Unset%s()'%p,True,sets,post,al)
            continue
        pt=par.split()[-1]
        call='t.%s%s(v)'%(op,p if op=='Set' else p)
        if iscoll(gt):
            post=''.join('\tvc.Assert(got.%s == v, "reads back the collection set")\n'%a for a in al)
            body+=contract(fn,[('v',pt)],'\tfv := vc.Freeze(v).(%s)\n'%pt,call,True,[(a,'fv') for a in al],post,al)
            post=''.join('\tvc.Assert(got.%s != nil, "%s is an empty collection, never a missing one")\n'%(a,a) for a in al)
            body+=contract(fn+'_nil',[],'',call.replace('(v)','(nil)'),True,[(a,empty(gt)) for a in al],post,al)
            continue
        post=''
        if not pt.startswith('[]') and not gt.startswith('option'):
            post=''.join('\tvc.Assert(vc.Is(got.%s, v), "reads back the value set")\n'%a for a in al)
        if gt.startswith('option.'):
            post='\tvc.Assert(got.%s.IsPresent(), "reads back the value set")\n'%p
        pre='\tgiven := v\n' if gt.startswith('option.') else ''
        body+=contract(fn,[('v',pt)],pre,call,op=='Set',[(a,val(gt,pt,'given' if pre else 'v')) for a in al],post,[])
        if pt.startswith('[]'):
            body+=contract(fn+'_nil',[],'',call.replace('(v)','(nil)'),True,[(a,'nil') for a in al],'',[])
        elif pt.startswith('raml.'):
            body+=contract(fn+'_nil',[],'',call.replace('(v)','(nil)'),True,[(a,'nil') for a in al],'\tvc.Assert(got.%s == nil, "reads back nothing")\n'%p,[])
    # --- new elements (C06)
    ctor='New'+('ApiSpec' if name=='APISpec' else name)
    d={}
    if name.endswith('Type'):
        kn=KIND[name[:-4]]
        d.update(Kind='rmeta.DataTypeKind("%s")'%kn,Type='"%s"'%kn,Schema='"%s"'%kn,Required='true')
    if name.endswith('Example'): d['Strict']='true'
    if name=='ArrayType': d['MaxItems']='2147483647'
    if name=='FileType': d['MaxLength']='2147483647'
    if name=='ObjectType': d['AdditionalProperties']='true'
    for g,t in gs:
        if iscoll(t): d[g]=empty(t)
    body+='// VcNew%s: t is a new element, with the RAML 1.0 defaults.\nfunc VcNew%s(t raml.%s) {\n\tgot := vcRead%s(t)\n\tvar want %s\n'%(name,name,name,name,obs)
    for g,t in gs:
        if g in d: body+='\twant.%s = %s\n'%(g,d[g])
    for c in colls: body+='\tvc.Assert(got.%s != nil, "%s is present")\n'%(c,c)
    body+='\tvc.Check(got, want, "RAML default")\n}\n\n'
    body+='func VcC06_%s_defaults() {\n\tVcNew%s(%s())\n}\n\n'%(name,name,ctor)
    body+='func VcC06_%s_apart(k string, q interface{}) {\n\ta, b := raml.%s(%s()), raml.%s(%s())\n\tvc.Assert(!vc.Is(a, b), "two elements are two objects")\n\tVcApart%s(a, b, k, q)\n}\n\n'%(name,name,ctor,name,ctor,name)
    body+='// VcApart%s: no change of a shows in b.\nfunc VcApart%s(a, b raml.%s, k string, q interface{}) {\n\twas := vc.Freeze(vcRead%s(b))\n'%(name,name,name,name)
    for g,t in gs:
        if iscoll(t): body+='\ta.%s().Put(%s, %s)\n'%(g,'q' if t=='raml.AnyMap' else 'k','k' if t=='raml.StringMap' else 'nil')
    body+='\tvc.Check(vcRead%s(b), was, "nothing is shared")\n'%name
    for m in ifs[name]:
        x=re.match(r'(Set)(\w+)\((.*)\)( \S+)?$',m)
        if x:
            pt=x.group(3).split()[-1]
            z={'string':'k','bool':'false','interface{}':'q'}.get(pt,'nil' if pt[0]=='[' or pt.startswith('raml.') else '7')
            body+='\ta.Set%s(%s)\n'%(x.group(2),z)
    body+='\tvc.Check(vcRead%s(b), was, "nothing is shared")\n}\n\n'%name
    imps=['"github.com/Foxcapades/lib-go-raml/v0/internal/vc"','"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"']
    if 'option.' in body: imps.insert(0,'"github.com/Foxcapades/goop/v1/pkg/option"')
    if 'rmeta.' in body: imps.append('"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"')
    src='package raml\n\n// Written by tools/mkelems.py.\n\nimport (\n'+''.join('\t%s\n'%i for i in imps)+')\n\n'+body
    open(os.path.join(out,'el_%s.go'%name.lower()),'w').write(src.rstrip()+'\n')
for p,n in ELEMS: gen(p,n)
import subprocess
subprocess.run(["gofmt","-w",out])
