#!/usr/bin/env python3
"""Writes the round-trip contracts (C15) from the interface listing."""
import os, subprocess, sys
here=os.path.dirname(os.path.abspath(__file__))
sys.argv=['x']
exec(open(os.path.join(here,'mkwrite.py')).read().split("COMMON='''")[0])
UINTS=('uint','option.Uint')
FLOATS=('float64','option.Float64')
COMMON=('Description','DisplayName','Example','Examples','FacetDefinitions','XML','Required','Default','Enum')
exec('KINDS_='+repr(KINDS))
exec('ERR='+parse.split('\nERR=')[1].split('\n# the library')[0].split('\nbody=')[0])
FN={n:'Unmarshal%sRAML(m, y)'%n for n,_ in FILLS}
def setup(name,gs,group=None):
    """assumptions on the state, and one case per property"""
    b=''
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Kind','Type','Schema','Schemas','Resources'): continue
        if t=='string': continue
        if t.startswith('[]'): b+='\tvc.Assume(s.%s == nil || len(s.%s) > 0)\n'%(g,g)
        if group and g not in group: b+='\tvc.Assume(!(%s))\n'%cond(name,g,t)[0]
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Kind','Type','Schema','Schemas','Resources'): continue
        c,v=cond(name,g,t)
        if t=='string': continue
        if group and g not in group: continue
        b+='\tvc.Split(%s)\n'%c
        if t=='[]float64': b+='\tfor _, f := range s.%s {\n\t\tvc.Assume(vcTenDigits(f))\n\t}\n'%g
        if t in UINTS: b+='\tvc.Assume(!(%s) || %s <= vcMaxInt)\n'%(c,v)
        if t in FLOATS: b+='\tvc.Assume(!(%s) || vcTenDigits(%s))\n'%(c,v)
    return b
def wanted(name,gs):
    b=''
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Kind','Resources'): continue
        if g in ('Type','Schema'):
            if g=='Type': b+='\twant.Type, want.Schema = s.Type, s.Type\n'
            continue
        if g=='Schemas': continue
        k=KEYS[g]
        c,v=cond(name,g,t)
        if t=='[]interface{}':
            b+='\tif %s {\n\t\tvar l []interface{}\n\t\tfor i := 0; i < len(vcAt(n, "%s").Content); i++ {\n\t\t\tl = append(l, vcAt(n, "%s").Content[i])\n\t\t}\n\t\tvcNode(vcAt(n, "%s"), %s, "an untyped list is written as it converts")\n\t\twant.%s = l\n\t}\n'%(c,k,k,k,v,g)
        elif t=='[]raml.Documentation':
            b+='\tif %s {\n\t\tvar l []raml.Documentation\n\t\tat := vcAt(n, "%s")\n\t\tfor i := 0; i < len(at.Content); i++ {\n\t\t\tx := NewDocumentation()\n\t\t\tif x.UnmarshalRAML(at.Content[i]) != nil {\n\t\t\t\tok = false\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tl = append(l, x)\n\t\t}\n\t\twant.%s = l\n\t}\n'%(c,k,g)
        elif t.startswith('[]'):
            b+='\tif %s {\n\t\twant.%s = s.%s\n\t}\n'%(c,g,g)
        elif t=='option.Untyped':
            b+='\tif %s {\n\t\tvar x interface{} = vcAt(n, "%s")\n\t\tvcNode(vcAt(n, "%s"), %s, "an untyped value is written as it converts")\n\t\twant.%s = option.NewMaybeUntyped(&x)\n\t}\n'%(c,k,k,v,g)
        elif t=='raml.DataType':
            b+='\tif %s {\n\t\tx, xerr := TypeSortingHat(vcAt(n, "%s"))\n\t\tok = ok && xerr == nil\n\t\twant.%s = x\n\t}\n'%(c,k,g)
        elif t=='raml.XML' or t.endswith('Example'):
            b+='\tif %s {\n\t\tx := New%s()\n\t\tok = x.UnmarshalRAML(vcAt(n, "%s")) == nil && ok\n\t\twant.%s = x\n\t}\n'%(c,t[5:],k,g)
        elif iscoll(t):
            b+='\tif %s {\n\t\tvc.Written(vcAt(n, "%s"), %s, "%s are written as a whole")\n\t\tok = VcFill%s(want.%s, vcAt(n, "%s")) == nil && ok\n\t}\n'%(c,k,v,k,t[5:],g,k)
        elif t.endswith('Format'):
            b+='\tif %s {\n\t\twant.%s = s.%s\n\t}\n'%(c,g,g)
        else:
            b+='\twant.%s = s.%s\n'%(g,g)
    return b
def keeps(gs,group):
    k=[g for g,t in gs if g not in ('Annotations','ExtraFacets','Resources') and (not group or g in group or g in ('Type','Title','Content'))]
    return ', '.join('"%s"'%g for g in k)
def trip(name,write,new,parse,gs,state,read,extra='',wext='',suffix='',args='',tail='',group=None):
    split=setup(name,gs,group)
    return '''func VcC15_%(n)s%(x)s(t raml.%(n)s%(a)s) {
	vc.Concretely(func() { vcOnly(t, %(new)s, %(keep)s) })
%(pre)s	s := vc.Freeze(%(r)s(t)).(%(s)s)
%(sp)s	%(w)s
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := %(new)s
	vc.Real()
	perr := %(p)s
	want := %(r)s(%(new)s)
	ok := true
%(want)s%(we)s	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(%(r)s(b), want, "what is written parses back to the same properties")
	}
%(tail)s}

'''%dict(keep=keeps(gs,group),n=name,x=suffix,a=args,pre=extra,r=read,s=state,sp=split,w=write,new=new,p=parse,want=wanted(name,gs),we=wext,tail=tail)
def fix(b):
    """nested states are reached through their field"""
    return b
TOYAML='n, err := t.(xyml.Marshaler).ToYAML()'
UNM='raml.Unmarshaler(b).UnmarshalRAML(n)'
NONE='''	vc.Assume(%s)
'''
KINDOF='''	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*%(n)s)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
'''
OTHER=KINDOF.replace('s.Type == string(s.Kind)','other')
KIND=dict(IncludeType='',UnionType='''	if strings.IndexByte(s.Type, '|') >= 0 && !strings.HasPrefix(s.Type, "!include ") {
'''+OTHER.split('\n',1)[1],CustomType=OTHER)
ANNW='''		if annotated {
			w := raml.NewUntypedMap(1).SerializeOrdered(false)
			ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
			want.Annotations.Put(ak, w)
		}
'''
def strimp(fn,body):
    if 'strings.' in body:
        p=os.path.join(out,fn)
        s=open(p).read().replace('import (\n','import (\n\t"strings"\n',1)
        open(p,'w').write(s)
def ext(name,gs,ann,keys,write,new,parse):
    """every property unset; one annotation and one extra entry"""
    b='func VcC15_%s_extra(t raml.%s, %sek string, ev *yaml.Node, extra bool) {\n'%(name,name,'ak, ik string, av *yaml.Node, annotated, filled bool, ' if ann else '')
    b+='\tvc.Concretely(func() { vcOnly(t, %s, "Type", "Title", "Content") })\n'%new
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Kind','Type','Schema','Schemas','Resources') or t=='string': continue
        c,v=cond(name,g,t,'vcRead%s(t).'%name)
        if t.startswith('[]'): b+='\tvc.Assume(vcRead%s(t).%s == nil)\n'%(name,g)
        else: b+='\tvc.Assume(!(%s))\n'%c
    if ann: b+='\tvc.Assume(vcRead%s(t).Annotations.Len() == 0)\n'%name
    b+='\tvc.Assume(vcRead%s(t).ExtraFacets.Len() == 0)\n'%name
    if ann: b+="\tvc.Split(annotated)\n\tvc.Split(filled)\n"
    b+="\tvc.Split(extra)\n"
    if ann: b+="""	want := vcRead%s(New%s())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcRead%s(t).Annotations.Put(ak, m)
	}
"""%(name,name,name)
    else: b+='\twant := vcRead%s(New%s())\n'%(name,name)
    b+="""	if extra {
		vc.Assume(ev != nil && vcUnknown%s(ek))
		vcRead%s(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
"""%(name,name)
    b+='\t%s\n'%write
    b+='\tvc.Assert(err == nil, "annotations and unknown entries can be written")\n\tif err != nil {\n\t\treturn\n\t}\n'
    b+='\tb := %s\n\tvc.Real()\n\tperr := %s\n'%(new,parse)
    b+="""	ok := true
%s	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcRead%s(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
%s	}
}

"""%(ANNW if ann else '',name,'\t\tvc.Check(vcRead%s(b).Annotations, want.Annotations, "annotations come back under their own keys")\n'%name if ann else '')
    b+="""// vcUnknown%s: the key is the name of no property and no annotation.
func vcUnknown%s(k string) bool {
	switch k {
	case %s:
		return false
	}
	return %s
}

"""%(name,name,', '.join('"%s"'%k for k in keys),'!strings.HasPrefix(k, "(")' if ann else 'true')
    return b
if __name__=='__main__' or True:
  for name in TYPES+['IncludeType','NilType']:
    gs=getters(name)
    ann='Annotations' in dict(gs)
    args=pre=''
    for g,t in gs:
        if t.endswith('Format'):
            args=', format string, formatted bool'
            pre='\tif formatted {\n\t\tf := %s(format)\n\t\tt.SetFormat(&f)\n\t} else {\n\t\tt.UnsetFormat()\n\t}\n'%t[5:]
    none=pre+''.join('\tvc.Assume(vcRead%s(t).%s.Len() == 0)\n'%(name,m) for m in (['Annotations'] if ann else [])+['ExtraFacets'])
    body=''
    splits=[g for g,t in gs if g not in ('Annotations','ExtraFacets','Kind','Type','Schema')]
    lists=[g for g,t in gs if t.startswith('[]')]
    splits=[g for g in splits if g not in lists]
    if len(splits)<=8: groups=[('',splits)]
    else: groups=[('_common',[g for g in splits if g in COMMON]),('_own',[g for g in splits if g not in COMMON or g in ('Default','Required')]),('_deep',splits)]
    if lists: groups.append(('_lists',lists))
    groups.append(('_kind',[g for g in ('Required','Description','Properties','Items') if g in splits]))
    for suffix,group in groups:
        one=trip(name,TOYAML,'New%s()'%name,UNM,gs,'vc%sState'%name,'vcRead'+name,extra=none,args=args,tail=KIND.get(name,KINDOF)%dict(n=name) if suffix=='_kind' else '',group=group,suffix=suffix)
        if name=='CustomType' and suffix=='_kind':
            one=one.replace('\tvc.Split(','\tother := vcOtherType(s.Type)\n\tvc.Split(other)\n\tvc.Split(',1)
        if suffix!='_kind' or KIND.get(name,KINDOF): body+=one
    body+=ext(name,gs,ann,['type','schema']+[KEYS[g] for g,t in gs if g in KEYS],TOYAML,'New%s()'%name,UNM)
    if name=='IncludeType':
        body=body.replace('\tperr := raml','\tvar perr error\n\tif n.Kind == yaml.ScalarNode {\n\t\tvar d raml.DataType\n\t\td, perr = TypeSortingHat(n)\n\t\tb, _ = d.(*IncludeType)\n\t} else {\n\t\tperr = raml').replace('RAML(n)\n','RAML(n)\n\t}\n')
    write('rt_%s.go'%name.lower(),body)
    strimp('rt_%s.go'%name.lower(),body)
  # examples: values that are not mappings (a bare mapping is an expanded example)
  for k in KINDS:
    name=k+'Example'
    gs=getters(name)
    vt=dict(gs)['Value']
    empty='\tvc.Assume(vcRead%s(t).Annotations.Len() == 0)\n\tvc.Assume(vcRead%s(t).ExtraFacets.Len() == 0)\n'%(name,name)
    args=pre=''
    if vt=='option.Untyped':
      args=', v *yaml.Node, valued bool'
      pre='\tif valued {\n\t\tvc.Assume(v != nil && v.Kind != yaml.MappingNode)\n\t\tt.SetValue(v)\n\t}\n'
      pre+='\tvc.Assume(valued || !vcRead%s(t).Value.IsPresent())\n\tvc.Split(valued)\n'%name
    body=trip(name,TOYAML,'New%s()'%name,UNM,[x for x in gs if vt!='option.Untyped' or x[0]!='Value'],'vc%sState'%name,'vcRead'+name,extra=pre+empty,args=args)
    if vt=='option.Untyped':
      body=body.replace('\tvc.Assert((perr','\tif valued {\n\t\tvar x interface{} = v\n\t\twant.Value = option.NewMaybeUntyped(&x)\n\t}\n\tvc.Assert((perr')
    long='s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict'
    has='len(s.Value) > 0' if vt.startswith('[]') else 's.Value.IsPresent()'
    body=body.replace('\tvc.Split(','\tvc.Assume(%s || %s)\n\tvc.Split('%(has,long),1)
    if vt=='option.Untyped':
      # the first Split is the one on valued, before s exists
      a='\tvc.Assume(%s || %s)\n'%(has,long)
      body=body.replace(a,'',1)
      body=body.replace('State)\n','State)\n'+a,1)
    if vt.startswith('[]'):
      body=body.replace('vcAt(n, "value")','at').replace('\twant := ','\tat := n\n\tif %s {\n\t\tat = vcAt(n, "value")\n\t}\n\twant := '%long,1)
    body+=ext(name,gs,True,[KEYS[g] for g,t in gs if g in KEYS],TOYAML,'New%s()'%name,UNM).replace('\tvc.Split(annotated)','\tvc.Assume(annotated || extra)\n\tvc.Split(annotated)')
    write('rt_%s.go'%name.lower(),body)
    strimp('rt_%s.go'%name.lower(),body)
  # XML settings, documentation entries
  gs=getters('XML')
  body=trip('XML',TOYAML,'NewXML()',UNM,gs,'vcXMLState','vcReadXML',extra='\tvc.Assume(vcReadXMLAll(t).ExtraFacets.Len() == 0)\n')
  body+=ext('XML',gs,False,[KEYS[g] for g,_ in gs],TOYAML,'NewXML()',UNM).replace('vcReadXML(t).Extra','vcReadXMLAll(t).Extra').replace('vcReadXML(b).Extra','vcReadXMLAll(b).Extra').replace('want := vcReadXML(','want := vcReadXMLAll(')
  write('rt_xml.go',body)
  gs=getters('Documentation')
  body=trip('Documentation',TOYAML,'NewDocumentation()',UNM,gs,'vcDocumentationState','vcReadDocumentation',extra='\tvc.Assume(t.ExtraFacets().Len() == 0)\n')
  body+=ext('Documentation',gs,False,[KEYS[g] for g,_ in gs if g in KEYS],TOYAML,'NewDocumentation()',UNM)
  write('rt_documentation.go',body)
  # documents
  DOC='r, err := t.(yaml.Marshaler).MarshalYAML()\n\tif m, ok := r.(yaml.Marshaler); ok && err == nil {\n\t\tr, err = m.MarshalYAML()\n\t}\n\tn, _ := r.(*yaml.Node)'
  UNY='yaml.Unmarshaler(b).UnmarshalYAML(n)'
  KEYS['Types']='types'
  for name,new in (('APISpec','NewApiSpec()'),('Library','NewLibrary()')):
    gs=getters(name)
    maps=['Annotations','ExtraFacets']+(['Resources'] if name=='APISpec' else [])
    none=''.join('\tvc.Assume(vcRead%s(t).%s.Len() == 0)\n'%(name,m) for m in maps)
    splits=[g for g,t in gs if g not in maps+['Schemas','Title']]
    lists=[g for g,t in gs if t.startswith('[]')]
    splits=[g for g in splits if g not in lists]
    groups=[('',splits)]
    if len(splits)>8: groups=[('_common',splits[:len(splits)//2]),('_own',splits[len(splits)//2:]),('_deep',splits)]
    if lists: groups+=[('_lists',[g for g in lists if g!='Documentation']),('_documentation',['Documentation'])]
    body=''
    for suffix,group in groups:
      one=trip(name,DOC,new,UNY,gs,'vc%sState'%name,'vcRead'+name,extra=none,group=group,suffix=suffix)
      body+=one.replace('\tvc.Assert((perr','\twant.Schemas = want.Types\n\tvc.Assert((perr')
    e=ext(name,gs,True,['schemas']+[KEYS[g] for g,t in gs if g in KEYS],DOC,new,UNY).replace('New%s()'%name,new)
    if name=='APISpec':
      e=e.replace('ek string','rk string, rv *yaml.Node, resource bool, ek string').replace('\tvc.Split(extra)\n','\tvc.Split(extra)\n\tvc.Split(resource)\n').replace('!strings.HasPrefix(k, "(")','!strings.HasPrefix(k, "(") && !strings.HasPrefix(k, "/")')
      e=e.replace('\tif extra {','\tvc.Assume(t.Resources().Len() == 0)\n\tif resource {\n\t\tvc.Assume(rv != nil && strings.HasPrefix(rk, "/"))\n\t\tt.Resources().Put(rk, rv)\n\t\twant.Resources.Put(rk, rv)\n\t}\n\tif extra {')
      e=e.replace('\t\tvc.Check(vcReadAPISpec(b).Ann','\t\tvc.Check(vcReadAPISpec(b).Resources, want.Resources, "resources come back under their own paths")\n\t\tvc.Check(vcReadAPISpec(b).Ann')
    body+=e
    write('rt_%s.go'%name.lower(),body)
    strimp('rt_%s.go'%name.lower(),body)
  # collections: two arbitrary entries, there and back
  body=''
  for n,item in FILLS:
    val={'UntypedMap':'*yaml.Node','StringMap':'string','DataTypeMap':'raml.DataType','PropertyMap':'raml.Property','FacetMap':'raml.DataTypeMap','AnnotationMap':'raml.UntypedMap'}.get(n,'raml.'+n[:-3])
    nonnil='' if n=='StringMap' else ' && v != nil && w != nil'
    body+="""func VcC15_fill_%(n)s(k, l string, v, w %(v)s, count int) {
	vc.Assume(k != l%(nn)s)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.New%(n)s(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.New%(n)s(0).SerializeOrdered(false)
	vc.Real()
	perr := %(f)s
	want := raml.New%(n)s(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItem%(n)s(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItem%(n)s(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

"""%dict(n=n,v=val,nn=nonnil,f=FN[n].replace('(m, y)','(b, n)'))
  for n in ('StringMap','UntypedMap'):
    for k,v in (('k','v'),('l','w')):
      body=body.replace('vcItem%s(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: %s}, vcAt(n, %s)) == nil'%(n,k,k),'want.Put(%s, %s) != nil'%(k,v))
  write('rt_fill.go',body)
  write('rt_spec.go','''// vcAt: the value under a key of a mapping.
func vcAt(n *yaml.Node, key string) *yaml.Node {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key {
			return n.Content[i+1]
		}
	}
	return nil
}

const vcMaxInt = 1<<63 - 1

// vcOnly (concrete runs): resets every property of t that is not listed to its
// value in the fresh element.
func vcOnly(t, fresh interface{}, keep ...string) {
	v, f := reflect.ValueOf(t), reflect.ValueOf(fresh)
	kept := map[string]bool{}
	for _, k := range keep {
		kept[k] = true
	}
	for i := 0; i < v.NumMethod(); i++ {
		n := v.Type().Method(i).Name
		if !strings.HasPrefix(n, "Set") || kept[n[3:]] || n == "SetType" && kept["Type"] {
			continue
		}
		if u := v.MethodByName("Unset" + n[3:]); u.IsValid() && u.Type().NumIn() == 0 {
			u.Call(nil)
		} else if g := f.MethodByName(n[3:]); g.IsValid() && g.Type().NumIn() == 0 && v.Method(i).Type().NumIn() == 1 {
			if r := g.Call(nil); r[0].Type().AssignableTo(v.Method(i).Type().In(0)) {
				v.Method(i).Call(r)
			}
		}
	}
	for _, n := range []string{"extra", "annotations", "resources", "enum", "def", "fileTypes", "documentation", "protocols", "mediaType", "securedBy"} {
		x, y := vcField(v, n), vcField(f, n)
		if n == "def" && x.IsValid() && x.Kind() != reflect.Slice {
			continue
		}
		if x.IsValid() && y.IsValid() {
			x.Set(y)
		}
	}
}

func vcField(v reflect.Value, n string) reflect.Value {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	x := v.FieldByName(n)
	if x.IsValid() {
		x = reflect.NewAt(x.Type(), unsafe.Pointer(x.UnsafeAddr())).Elem()
	}
	return x
}

// vcOtherType: the text names no built-in type.
func vcOtherType(s string) bool {
	switch s {
	case "any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "nil", "number", "object", "string", "time-only":
		return false
	}
	return strings.IndexByte(s, '|') < 0 && !strings.HasPrefix(s, "!include ")
}

// vcTenDigits: the real is determined by ten significant digits, which is
// what is written.
func vcTenDigits(f float64) bool {
	g, err := strconv.ParseFloat(strconv.FormatFloat(f, 'g', 10, 64), 64)
	return err == nil && g == f
}
''')
  p=os.path.join(out,'rt_spec.go')
  s=open(p).read().replace('import (\n','import (\n\t"reflect"\n\t"strconv"\n\t"strings"\n\t"unsafe"\n',1)
  open(p,'w').write(s)
  subprocess.run(["gofmt","-w",out])
