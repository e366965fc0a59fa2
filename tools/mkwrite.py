#!/usr/bin/env python3
"""Writes the writing contracts (C12, C13, C14) from the interface listing."""
import os, subprocess, sys
here=os.path.dirname(os.path.abspath(__file__))
sys.argv=['x']
parse=open(os.path.join(here,'mkparse.py')).read()
exec(parse.split('def fill(name')[0])
exec('KEYS='+parse.split('\nKEYS=')[1].split("\nOPT=")[0])
# RAML defaults that are left out
DEFAULT={('ArrayType','MaxItems'):'2147483647',('FileType','MaxLength'):'2147483647'}
def wkey(g): return '"%s"'%KEYS[g]
def cond(name,g,t,s='s.'):
    """condition under which property g is written, and the value"""
    if t.startswith('option.'): return s+g+'.IsPresent()', s+g+'.Get()'
    if t=='string': return 'true', s+g
    if g=='Required': return '!'+s+g,'false'
    if g=='AdditionalProperties': return '!'+s+g,'false'
    if g=='Strict': return '!'+s+g,'false'
    if g=='UniqueItems': return s+g,'true'
    if t.startswith('[]'): return 'len(%s%s) > 0'%(s,g), s+g
    if iscoll(t): return '%s%s.Len() > 0'%(s,g), s+g
    if t=='uint': return '%s%s != %s'%(s,g,DEFAULT.get((name,g),'0')), s+g
    if t.startswith('raml.'): return '%s%s != nil'%(s,g), s+g
    raise Exception((name,g,t))
def lists(gs):
    return ''.join('\tvc.Assume(s.%s == nil || len(s.%s) > 0)\n'%(g,g) for g,t in gs if t.startswith('[]'))
def entry(name,g,t,s='s.'):
    c,v=cond(name,g,t,s)
    k=wkey(g)
    return '\tif %s {\n\t\tvc.WEntry(n, %s, %s, %s)\n\t} else {\n\t\tvc.WNone(n, %s, %s)\n\t}\n'%(
        c,k,v,'"the property %s is written with its current value"'%KEYS[g],k,'"the property %s is left out when it is not set"'%KEYS[g])
def clash(keys,ann):
    b=''
    for k in keys:
        b+='\tvc.Assume(!s.ExtraFacets.Has("%s"))\n'%k
        if ann: b+='\tvc.Assume(!s.Annotations.Has("%s"))\n'%k
    return b
def others(name,keys,maps):
    """entries under arbitrary other keys"""
    b='// vcOthers%s: every other entry is an annotation or an extra entry.\nfunc vcOthers%s(s vc%sState, n *yaml.Node, q interface{}) {\n'%(name,name,name)
    b+='\tswitch q {\n\tcase %s:\n\t\treturn\n\t}\n'%', '.join('"%s"'%k for k in keys)
    for f,isstr in maps:
        if isstr:
            b+='\tif w, ok := q.(string); ok && s.%s.Has(w) {\n%s\t\tv, _ := s.%s.Get(w)\n\t\tvc.WEntry(n, q, v, "each entry of %s is written under its own key")\n\t\treturn\n\t}\n'%(f,''.join('\t\tvc.Assume(!s.%s.Has(%s))\n'%(g,'w' if st else 'q') for g,st in maps if g!=f),f,f)
        else:
            b+='\tif s.%s.Has(q) {\n\t\tv, _ := s.%s.Get(q)\n\t\tvc.WEntry(n, q, v, "each entry of %s is written under its own key")\n\t\treturn\n\t}\n'%(f,f,f)
    b+='\tvc.WNone(n, q, "nothing else is written")\n}\n'
    return b
def order(prop,name,call,keys,maps,fs,ann=True,state=None):
    """the entries of each collection keep their order"""
    state=state or 'vc%sState'%name
    b='func Vc%s_%s_order(t raml.%s, i, j int) {\n\ts := vc.Freeze(%s(t)).(%s)\n'%(prop,name,name,state.replace('State','').replace('vc','vcRead',1),state)
    b+=lists(fs)
    for k in keys:
        for f,_ in maps: b+='\tvc.Assume(!s.%s.Has("%s"))\n'%(f,k)
    b+='\tvc.Assume(0 <= i && i < j)\n\t'+call+'\n\tif err != nil || !vc.WMap(n) {\n\t\treturn\n\t}\n'
    for f,isstr in maps:
        b+='\tif j < s.%s.Len() {\n\t\ta, b := s.%s.At(i).Key, s.%s.At(j).Key\n'%(f,f,f)
        for g,st in maps:
            if g==f: continue
            for v in 'ab':
                if st and not isstr: b+='\t\tif w, ok := %s.(string); ok {\n\t\t\tvc.Assume(!s.%s.Has(w))\n\t\t}\n'%(v,g)
                else: b+='\t\tvc.Assume(!s.%s.Has(%s))\n'%(g,v)
        b+='\t\tvc.WBefore(n, a, b, "the entries of %s are written in their order")\n\t}\n'%f
    return b+'}\n\n'
COMMON='''	vc.Check(vcRead%(n)s(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
'''
if __name__=='__main__' or True:
  for name in TYPES+['IncludeType','NilType']:
    gs=getters(name)
    ann='Annotations' in dict(gs)
    fs=[(g,t) for g,t in gs if g not in ('Annotations','ExtraFacets','Kind','Type','Schema')]
    keys=['type']+[KEYS[g] for g,t in fs]
    maps=([('Annotations',True)] if ann else [])+[('ExtraFacets',False)]
    body=''
    for via,call in (('ToYAML','n, err := t.(xyml.Marshaler).ToYAML()'),('MarshalYAML','r, err := t.(yaml.Marshaler).MarshalYAML()\n\tn, _ := r.(*yaml.Node)')):
        body+='''func VcC12_%(n)s_%(v)s(t raml.%(n)s, q interface{}) {
	s := vc.Freeze(vcRead%(n)s(t)).(vc%(n)sState)
%(l)s%(c)s	%(call)s
%(com)s	if !(%(long)s) {
		vcBare%(inc)s(n, s.Type)
		return
	}
	vc.Assert(vc.WMap(n), "a declaration with more than its type is written as a mapping")
	vcEntries%(n)s(s, n)
	vcOthers%(n)s(s, n, q)
}

'''%dict(n=name,v=via,l=lists(gs),c=clash(keys,ann),call=call,com=COMMON%dict(n=name),inc='Include' if name=='IncludeType' else '',
         long=' || '.join([cond(name,g,t)[0] for g,t in fs]+['s.%s.Len() > 0'%m for m,_ in maps]))
    body+=order('C12',name,'n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,gs,ann)
    body+='// vcEntries%s: the entries of a written declaration.\nfunc vcEntries%s(s vc%sState, n *yaml.Node) {\n'%(name,name,name)
    if name=='IncludeType': body+='\tvc.WEntry(n, "type", vcIncluded(s.Type), "the type is written")\n'
    else: body+='\tvc.WEntry(n, "type", s.Type, "the type is written")\n'
    for g,t in fs: body+=entry(name,g,t)
    body+='}\n\n'+others(name,keys,maps)
    write('pw_%s.go'%name.lower(),body)
  write('pw_spec.go','''// vcBare: a declaration with nothing but its type is text.
func vcBare(n *yaml.Node, typ string) {
	vc.Assert(n != nil && vcIsText(n) && n.Value == typ, "a declaration with nothing but its type is written as the bare type")
}

func vcBareInclude(n *yaml.Node, typ string) {
	vc.Assert(n != nil && n.Kind == yaml.ScalarNode && n.Tag == "!include" && n.Value == typ, "an include with nothing else is written as a bare include")
}

// vcNode: n is what the value converts to.
func vcNode(n *yaml.Node, v interface{}, label string) {
	want, err := xyml.ToYamlNode(v)
	vc.Assert(err == nil && n != nil, label)
	vc.Check(n, want, label)
}

func vcIncluded(path string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!include", Value: path}
}
''')
  # C13, C14
  def element(prop,name,via,call,keys,maps,fs,simple='',state=None):
    """the contract of one way of writing an element that is always a mapping,
    or (simple) its bare value when it has nothing else"""
    state=state or 'vc%sState'%name
    body='func Vc%s_%s_%s(t raml.%s, q interface{}) {\n\ts := vc.Freeze(%s(t)).(%s)\n'%(prop,name,via,name,state.replace('State','').replace('vc','vcRead',1),state)
    body+=lists(fs)
    for k in keys:
        for f,_ in maps: body+='\tvc.Assume(!s.%s.Has("%s"))\n'%(f,k)
    body+='\t'+call+'\n'+(COMMON%dict(n=name)).replace('vcRead%s('%name,state.replace('State','').replace('vc','vcRead',1)+'(')
    body+=simple
    body+='\tvc.Assert(vc.WMap(n), "the element is written as a mapping")\n\tvcEntries%s(s, n)\n\tvcOthers%s(s, n, q)\n}\n\n'%(name,name)
    body=body.replace('vc.%sState'%name,state)
    return body
  def entries(name,keys,maps,fs,state=None):
    body='// vcEntries%s: the entries of the written element.\nfunc vcEntries%s(s vc%sState, n *yaml.Node) {\n'%(name,name,name)
    for g,t in fs: body+=entry(name,g,t)
    body+='}\n\n'+others(name,keys,maps)
    return body.replace('vc%sState'%name,state) if state else body
  for k in KINDS:
    name=k+'Example'
    gs=dict(getters(name))
    fs=[(g,gs[g]) for g in ('DisplayName','Description','Value','Strict')]
    maps=[('Annotations',True),('ExtraFacets',False)]
    keys=[KEYS[g] for g,_ in fs]
    long=' || '.join(['s.DisplayName.IsPresent()','s.Description.IsPresent()','!s.Strict','s.Annotations.Len() > 0','s.ExtraFacets.Len() > 0'])
    if gs['Value'].startswith('option.'):
        val='\t\tif !s.Value.IsPresent() {\n\t\t\tvcNode(n, nil, "an example without a value is written as null")\n\t\t\treturn\n\t\t}\n\t\tvcNode(n, s.Value.Get(), "an example without metadata is written as its bare value")\n'
    else:
        val='\t\tvcNode(n, s.Value, "an example without metadata is written as its bare value")\n'
    simple='\tif !(%s) {\n%s\t\treturn\n\t}\n'%(long,val)
    body=element('C13',name,'ToYAML','n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,fs,simple)+order('C13',name,'n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,fs,True)+entries(name,keys,maps,fs)
    write('pw_%s.go'%name.lower(),body)
  gs=getters('XML')
  def inxml(b):
    for g,_ in gs: b=b.replace('s.%s.'%g,'s.XML.%s.'%g)
    return b
  fs=gs; keys=[KEYS[g] for g,_ in fs]; maps=[('ExtraFacets',False)]
  write('pw_xml.go',inxml(element('C13','XML','ToYAML','n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,fs,state='vcXMLAll')+order('C13','XML','n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,fs,True,state='vcXMLAll')+entries('XML',keys,maps,fs,'vcXMLAll')))
  gs=[(g,t) for g,t in getters('Documentation') if g!='ExtraFacets']
  fs=gs; keys=[KEYS[g] for g,_ in fs]; maps=[('ExtraFacets',False)]
  write('pw_documentation.go',element('C13','Documentation','ToYAML','n, err := t.(xyml.Marshaler).ToYAML()',keys,maps,fs)+entries('Documentation',keys,maps,fs))
  KEYS['Types']='types'
  for name,maps in (('APISpec',[('Annotations',True),('Resources',True),('ExtraFacets',False)]),('Library',[('Annotations',True),('ExtraFacets',False)])):
    fs=[(g,t) for g,t in getters(name) if g not in ['Schemas']+[m for m,_ in maps]]
    keys=[KEYS[g] for g,_ in fs]
    call='r, err := t.(yaml.Marshaler).MarshalYAML()\n\tif m, ok := r.(yaml.Marshaler); ok && err == nil {\n\t\tr, err = m.MarshalYAML()\n\t}\n\tn, _ := r.(*yaml.Node)'
    body=element('C14',name,'MarshalYAML',call,keys,maps,fs)+order('C14',name,call,keys,maps,fs,True)
    head={'APISpec':'#%RAML 1.0','Library':'#%RAML 1.0 Library'}[name]
    for via,call in (('WriteRAML','w := vc.NewSink(limit)\n\terr := t.WriteRAML(w)'),):
        one=element('C14',name,via,call,keys,maps,fs).replace('q interface{})','q interface{}, limit int)',1)
        a=one.index('\tif err != nil {'); b=one.index('\tvc.Assert(vc.WMap')
        body+=one[:a]+'''\tif err != nil {
\t\tvc.Assert(w.Failed() || vc.WFailed(), "only a failing destination or a value that cannot be converted makes writing fail")
\t\treturn
\t}
\tvc.Assert(!w.Failed(), "a failure of the destination is returned")
\thead, n := w.Document()
\tvc.Assert(head == "%s", "the output starts with the header line of the document kind")
'''%head+one[b:]
    write('pw_%s.go'%name.lower(),body+entries(name,keys,maps,fs))
  subprocess.run(["gofmt","-w",out])
