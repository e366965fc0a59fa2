#!/usr/bin/env python3
"""Writes the parsing contracts (C08, C09, C10) from the interface listing."""
import os, subprocess, sys
here=os.path.dirname(os.path.abspath(__file__))
sys.argv=['x']
src=open(os.path.join(here,'mkelems.py')).read().split("for p,n in ELEMS: gen")[0]
exec(src)
HEAD='''package raml

// Written by tools/mkparse.py.

import (
%s)

'''
def write(fn,body):
    im=[]
    for key,imp in (('option.','github.com/Foxcapades/goop/v1/pkg/option'),('vc.','github.com/Foxcapades/lib-go-raml/v0/internal/vc'),
                    ('raml.','github.com/Foxcapades/lib-go-raml/v0/pkg/raml'),('xyml.','github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml'),('yaml.','gopkg.in/yaml.v3')):
        if any(x in body for x in (' '+key,'('+key,'*'+key,'\t'+key,'!'+key,']'+key)): im.append('\t"%s"\n'%imp)
    open(os.path.join(out,fn),'w').write(HEAD%''.join(im)+body.rstrip()+'\n')
def fill(name,typ,item):
    return '''// VcFill%(n)s adds the entries of a mapping, in document order.
func VcFill%(n)s(m %(t)s, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItem%(n)s(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItem%(n)s(m %(t)s, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
%(i)s	m.Put(key, x)
	return nil
}

'''%dict(n=name,t=typ,i=item)
ERR='; err != nil {\n\t\treturn err\n\t}\n'
FILLS=[(k+'ExampleMap','\tx := New%sExample()\n\tif err := x.UnmarshalRAML(v)%s'%(k,ERR)) for k in KINDS]+[
 ('UntypedMap','\tvar x interface{} = v\n'),
 ('StringMap','\tx, err := vcText(v)\n\tif err != nil {\n\t\treturn err\n\t}\n'),
 ('DataTypeMap','\tx, err := TypeSortingHat(v)\n\tif err != nil {\n\t\treturn err\n\t}\n'),
 ('PropertyMap','\td, err := TypeSortingHat(v)\n\tif err != nil {\n\t\treturn err\n\t}\n\tx := d.(raml.Property)\n'),
 ('FacetMap','\tx := raml.NewDataTypeMap(0).SerializeOrdered(false)\n\tif err := VcFillDataTypeMap(x, v)'+ERR),
 ('AnnotationMap','\tx := raml.NewUntypedMap(0).SerializeOrdered(false)\n\tif err := VcFillUntypedMap(x, v)'+ERR),
]
body='''// Filling a collection from a mapping: every key is text and every value is
// parsed as an item of that collection. At call sites the library's functions,
// proved to do just this, and these are the same function of the node.

'''
for n,i in FILLS: body+=fill(n,'raml.'+n,i)
write('pa_fill.go',body)
# the library's own functions
FN={n:'Unmarshal%sRAML(m, y)'%n for n,_ in FILLS}
body=''
def fillc(fn,call,n):
    return '''func VcC08_%(fn)s(m raml.%(n)s, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.%(n)s
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.%(n)s) }, y,
		func(y *yaml.Node) error { return %(call)s },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.%(n)s)
			werr := vcItem%(n)s(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

'''%dict(fn=fn,call=call,n=n)
for n,_ in FILLS: body+=fillc('fill_'+n,FN[n],n)
write('pa_fillc.go',body)
body=fillc('assign_UntypedMap','assign.ToUntypedMap(y, m)','UntypedMap')+fillc('assign_StringMap','assign.ToStringMap(y, m)','StringMap')
write('pa_assign.go',body)
p=os.path.join(out,'pa_assign.go')
s=open(p).read().replace('import (\n','import (\n\t"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"\n',1)
open(p,'w').write(s)

KEYS=dict(AdditionalProperties='additionalProperties',Default='default',Description='description',Discriminator='discriminator',
 DiscriminatorValue='discriminatorValue',DisplayName='displayName',Enum='enum',Example='example',Examples='examples',
 FacetDefinitions='facets',FileTypes='fileTypes',Format='format',Items='items',Maximum='maximum',MaxItems='maxItems',
 MaxLength='maxLength',MaxProperties='maxProperties',Minimum='minimum',MinItems='minItems',MinLength='minLength',
 MinProperties='minProperties',MultipleOf='multipleOf',Pattern='pattern',Properties='properties',Required='required',
 UniqueItems='uniqueItems',XML='xml',
 Attribute='attribute',Wrapped='wrapped',Name='name',Namespace='namespace',Prefix='prefix',IsAttribute='attribute',IsWrapped='wrapped',
 Title='title',Content='content',Strict='strict',Value='value',Version='version',BaseURI='baseUri',BaseURIParameters='baseUriParameters',
 Protocols='protocols',MediaType='mediaType',MediaTypes='mediaType',Documentation='documentation',SecuredBy='securedBy',Uses='uses',Usage='usage',
 SecuritySchemes='securitySchemes',Traits='traits',AnnotationTypes='annotationTypes',ResourceTypes='resourceTypes')
OPT={'option.String':'vcText','option.Bool':'vcBool','option.Uint':'vcUint','option.Int64':'vcInt','option.Float64':'vcFloat'}
PLAIN={'string':'vcText','bool':'vcBool','uint':'vcUint','int64':'vcInt','float64':'vcFloat'}
def listof(field,elem):
    conv='x, err := %s(c)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}'%PLAIN[elem] if elem in PLAIN else 'var x interface{} = c'
    return '''		if err := vcSeq(v); err != nil {
			return err
		}
		vc.Assume(len(want.%s) == 0)
		for i := 0; i < len(v.Content); i++ {
			c := v.Content[i]
			%s
			want.%s = append(want.%s, x)
		}
'''%(field,conv,field,field)
def store(name,g,t):
    """the statements that store node v into property g"""
    if t in OPT:
        return '\t\tx, err := %s(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = option.NewMaybe%s(&x)\n'%(OPT[t],g,t[7:])
    if t in PLAIN:
        return '\t\tx, err := %s(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = x\n'%(PLAIN[t],g)
    if t=='option.Untyped':
        return '\t\tvar x interface{} = v\n\t\twant.%s = option.NewMaybeUntyped(&x)\n'%g
    if g in ('FileTypes','Protocols','SecuredBy'):
        return '\t\tx, err := vcTexts(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = x\n'%g
    if t.startswith('[]'):
        return listof(g,t[2:])
    if t=='raml.XML':
        return '\t\tx := NewXML()\n\t\tif err := x.UnmarshalRAML(v); err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = x\n'%g
    if t=='raml.DataType':
        return '\t\tx, err := TypeSortingHat(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = x\n'%g
    if t.endswith('Example'):
        return '\t\tx := New%s()\n\t\tif err := x.UnmarshalRAML(v); err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.%s = x\n'%(t[5:],g)
    if iscoll(t):
        return '\t\treturn VcFill%s(want.%s, v)\n'%(t[5:],g)
    if t.endswith('Format'):
        return '\t\tx, err := vcText(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tf := %s(x)\n\t\twant.%s = &f\n'%(t[5:],g)
    raise Exception((name,g,t))
def parse(prop,name,call,spec,how0):
    obs='vc%sState'%name
    return '''func Vc%(p)s_%(n)s_parse(t raml.%(n)s, y *yaml.Node) {
	vc.Assume(y != nil)
	var old %(o)s
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcRead%(n)s(t)).(%(o)s) }, y,
		func(y *yaml.Node) error { return %(c)s },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(%(o)s)
			werr := vcParse%(n)s(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcRead%(n)s(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
%(h)s	}
%(f)s	if how == 2 {
		vc.Check(vcRead%(n)s(t), old, "nothing but the entries is stored")
	}
}

%(s)s'''%dict(p=prop,n=name,o=obs,c=call,s=spec,h=how0,f='' if '_x' in how0 else '\tvcFolded%s(y, err, how)\n'%('' if 'vcFolded' not in how0 else ''))
# --- C08: type declarations
for name in TYPES+['IncludeType','NilType']:
    gs=getters(name)
    spec='// vcParse%s: one entry of a declaration.\nfunc vcParse%s(want *vc%sState, k, v *yaml.Node) error {\n\tswitch k.Value {\n'%(name,name,name)
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Kind','Type','Schema'): continue
        s=store(name,g,t)
        spec+='\tcase "%s":\n%s'%(KEYS[g],s)
        if 'return VcFill' not in s: spec+='\t\treturn nil\n'
    spec+='\tcase "type", "schema":\n\t\tif v.Tag == "!include" {\n\t\t\twant.Type, want.Schema = v.Value, v.Value\n\t\t\treturn nil\n\t\t}\n\t\tx, err := vcText(v)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\twant.Type, want.Schema = x, x\n\t\treturn nil\n\t}\n'
    if 'Annotations' in dict(gs):
        spec+='\tif vcIsText(k) && vcPrefixed(k, \'(\') {\n\t\treturn vcAnnotate(want.Annotations, k, v)\n\t}\n'
    spec+='\twant.ExtraFacets.Put(k.Value, v)\n\treturn nil\n}\n'
    h='''		want := vc.Freeze(old).(vc%(n)sState)
		if vcIsText(y) {
			want.Type, want.Schema = y.Value, y.Value
		} else {
			vc.Assert(y.Kind == yaml.MappingNode && len(y.Content) == 0, "a declaration is text or a mapping")
		}
		vc.Check(vcRead%(n)s(t), want, "a declaration given as text has that type")
'''%dict(n=name)
    write('pa_%s.go'%name.lower(),parse('C08',name,'t.(raml.Unmarshaler).UnmarshalRAML(y)',spec,h).replace('\tvcFolded(y, err, how)\n','\tvc.Assert(how != 0 || err == nil || !vcIsText(y) && y.Kind != yaml.MappingNode, "text and mappings are declarations")\n'))
# --- C09: examples, XML settings, documentation
NOTEXT="\tif !vcIsText(k) {\n\t\treturn vcExtra(want.ExtraFacets, k, v)\n\t}\n"
ANN="\tif vcPrefixed(k, '(') {\n\t\treturn vcAnnotate(want.Annotations, k, v)\n\t}\n"
TANN="\tif vcIsText(k) && vcPrefixed(k, '(') {\n\t\treturn vcAnnotate(want.Annotations, k, v)\n\t}\n"
EXTRA='\treturn vcExtra(want.ExtraFacets, k, v)\n}\n'
def head(name,obs): return '// vcParse%s: one entry of the mapping.\nfunc vcParse%s(want *%s, k, v *yaml.Node) error {\n'%(name,name,obs)
def cases(name,gs,skip=()):
    spec='\tswitch k.Value {\n'
    for g,t in gs:
        if g in ('Annotations','ExtraFacets')+skip: continue
        s=store(name,g,t)
        spec+='\tcase "%s":\n%s'%(KEYS[g],s)
        if 'return VcFill' not in s: spec+='\t\treturn nil\n'
    return spec+'\t}\n'
for k in KINDS:
    name=k+'Example'
    gs=getters(name)
    vt=dict(gs)['Value']
    value='func vcValue%s(want *vc%sState, v *yaml.Node) error {\n%s\treturn nil\n}\n\n'%(name,name,store(name,'Value',vt).replace('vc.Assume(len(want.Value) == 0)','want.Value = nil').replace('\t\t','\t'))
    value=value.replace('\n\twant.Value = nil\n','\n\twant.Value = nil\n')
    spec=value+head(name,'vc%sState'%name)+NOTEXT+ANN+cases(name,gs,('Value',)).replace('\t}\n\x00','')+'\tif k.Value == "value" {\n\t\treturn vcValue%s(want, v)\n\t}\n'%name+EXTRA
    h="""		// not a mapping, or an empty one
		want := vc.Freeze(old).(vc%(n)sState)
		if y.Kind != yaml.MappingNode {
			werr := vcValue%(n)s(&want, y)
			vc.Assert(werr == nil, "a value of the wrong kind is an error")
		}
		vc.Check(vcRead%(n)s(t), want, "an example that is not a mapping is its own value")
"""%dict(n=name)
    body=parse('C09',name,'t.(raml.Unmarshaler).UnmarshalRAML(y)',spec,h)
    body=body.replace('\tvcFolded(y, err, how)\n',"""	if how == 0 && err != nil {
		want := vc.Freeze(old).(vc%(n)sState)
		vc.Assert(y.Kind != yaml.MappingNode && vcValue%(n)s(&want, y) != nil, "mappings and values of the right kind are examples")
	}
"""%dict(n=name))
    write('pa_%s.go'%name.lower(),body)
FOLDED='		vc.Check(vcRead%s(t), old, "nothing is stored without entries")\n'
XMLR="""
// vcXMLAll is an XML element with the entries it does not know.
type vcXMLAll struct {
	XML         vcXMLState
	ExtraFacets raml.AnyMap
}

func vcReadXMLAll(t raml.XML) vcXMLAll {
	return vcXMLAll{vcReadXML(t), t.(*XML).extra}
}
"""
xs=head('XML','vcXMLAll')+cases('XML',getters('XML')).replace('want.','want.XML.')+EXTRA
body=parse('C09','XML','t.(raml.Unmarshaler).UnmarshalRAML(y)',xs,FOLDED%'XML').replace('vcXMLState','vcXMLAll').replace('vcReadXML(','vcReadXMLAll(')
write('pa_xml.go',body+XMLR)
ds=head('Documentation','vcDocumentationState')+cases('Documentation',getters('Documentation'))+EXTRA
write('pa_documentation.go',parse('C09','Documentation','t.(raml.Unmarshaler).UnmarshalRAML(y)',ds,FOLDED%'Documentation'))
# --- C10: API documents and libraries
def apistore(s,n):
    return s
for name in ('APISpec','Library'):
    gs=getters(name)
    sw='\tswitch k.Value {\n'
    for g,t in gs:
        if g in ('Annotations','ExtraFacets','Resources','Schemas'): continue
        key='"%s"'%KEYS.get(g)
        if g=='Types': st='\t\treturn VcFillDataTypeMap(want.Types, v)\n'; key='"types", "schemas"'
        elif g=='MediaTypes':
            st="""		if vcIsText(v) {
			vc.Assume(len(want.MediaTypes) == 0)
			want.MediaTypes = []string{v.Value}
			return nil
		}
		x, err := vcTexts(v)
		if err != nil {
			return err
		}
		want.MediaTypes = x
"""
        elif g=='Documentation':
            st="""		if err := vcSeq(v); err != nil {
			return err
		}
		vc.Assume(len(want.Documentation) == 0)
		for i := 0; i < len(v.Content); i++ {
			x := NewDocumentation()
			if err := x.UnmarshalRAML(v.Content[i]); err != nil {
				return err
			}
			want.Documentation = append(want.Documentation, x)
		}
"""
        else: st=store(name,g,t)
        sw+='\tcase %s:\n%s'%(key,st)
        if 'return VcFill' not in st: sw+='\t\treturn nil\n'
    sw+='\t}\n'
    if name=='APISpec':
        spec=head(name,'vcAPISpecState')+NOTEXT+ANN+"""	if vcPrefixed(k, '/') {
		want.Resources.Put(k.Value, v)
		return nil
	}
"""+sw+EXTRA
    else:
        spec=head(name,'vcLibraryState')+sw+TANN+EXTRA
    write('pa_%s.go'%name.lower(),parse('C10',name,'t.(yaml.Unmarshaler).UnmarshalYAML(y)',spec,FOLDED%name))
subprocess.run(["gofmt","-w",out])
# --- C11: no panic, for any state of the element
body='''// Parsing any tree into any state of an element ends without a panic.

'''
def c11(n,call,ps):
    return '''func VcC11_%s_parse(%s, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return %s },
		func(k, v *yaml.Node, err error) {})
}

'''%(n,ps,call)
for name in TYPES+['IncludeType','NilType']+[k+'Example' for k in KINDS]+['XML','Documentation']:
    body+=c11(name,'t.(raml.Unmarshaler).UnmarshalRAML(y)','t raml.'+name)
for name in ('APISpec','Library'): body+=c11(name,'t.(yaml.Unmarshaler).UnmarshalYAML(y)','t raml.'+name)
for n,_ in FILLS: body+=c11('fill_'+n,FN[n],'m raml.'+n)
body=body.replace('raml.AnnotationMap, y','raml.AnnotationMap, y')
body+='''func VcC11_TypeSortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	vc.Real()
	d, err := TypeSortingHat(y)
	vc.Assert((err == nil) == (d != nil), "a declaration or an error")
}

func VcC11_PropertySortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	d, err := PropertySortingHat(y)
	vc.Assert((err == nil) == (d != nil), "a declaration or an error")
}
'''
write('pb_all.go',body)
body='''func VcC11_assign_UntypedMap(m raml.UntypedMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return assign.ToUntypedMap(y, m) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_assign_StringMap(m raml.StringMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return assign.ToStringMap(y, m) },
		func(k, v *yaml.Node, err error) {})
}
'''
write('pb_assign.go',body)
p=os.path.join(out,'pb_assign.go')
s=open(p).read().replace('import (\n','import (\n\t"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"\n',1)
open(p,'w').write(s)
subprocess.run(["gofmt","-w",out])
# --- C07
body='''// vcSameDecl: two declarations are of the same kind and have the same
// properties.
func vcSameDecl(a, b interface{}) {
	switch x := a.(type) {
'''
for name in TYPES+['IncludeType','NilType']:
    body+='''	case *%(n)s:
		y, ok := b.(*%(n)s)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcRead%(n)s(x), vcRead%(n)s(y), "the declaration has the properties that are given")
'''%dict(n=name)
body+='''	default:
		vc.Assert(false, "the declaration is of a known kind")
	}
}
'''
write('pc_same.go',body)
subprocess.run(["gofmt","-w",out])
