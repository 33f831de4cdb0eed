"""writes mc/schemas/defaults.capnp: explicit defaults of every scalar kind, at every boundary value and in every position"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.shapes import INTS, FLOATS

CAP = {'int8': 'Int8', 'int16': 'Int16', 'int32': 'Int32', 'int64': 'Int64', 'uint8': 'UInt8', 'uint16': 'UInt16', 'uint32': 'UInt32',
       'uint64': 'UInt64', 'float32': 'Float32', 'float64': 'Float64', 'bool': 'Bool', 'enum': 'Color'}
ENUM = ['red', 'green', 'blue']


def lit(k, v):
    if k == 'bool':
        return 'true' if v else 'false'
    if k == 'enum':
        return ENUM[v]
    if k.startswith('float'):
        return {'inf': 'inf', '-inf': '-inf', 'nan': 'nan'}.get(str(v), repr(v))
    return str(v)


def values(k):
    if k == 'bool':
        return [True, False, True]
    if k == 'enum':
        return [2, 0, 1]
    vals = dict(INTS, **FLOATS)[k]
    return [v for v in vals if not (k.startswith('float') and str(v) == '-0.0')] + ([-0.0] if k.startswith('float') else [])


out = ['@0xc0ffee1234567801;', 'using Py = import "/capnpy/annotate.capnp";',
       'enum Color { red @0; green @1; blue @2; }', 'struct Leaf { x @0 :Int64; y @1 :UInt16; t @2 :Text; }', '']
for k, T in CAP.items():
    name = k.capitalize()
    fs = ['plain @0 :%s;' % T]
    for i, v in enumerate(values(k)):
        fs.append('d%d @%d :%s = %s;' % (i, i + 1, T, lit(k, v)))
    out.append('struct D%s { %s }' % (name, ' '.join(fs)))
out.append('')

# a group, a nested group, an anonymous union, a named union with a member of every kind
n = [0]


def nxt():
    n[0] += 1
    return n[0] - 1


def all_kinds(prefix):
    return ' '.join('%s%s @%d :%s = %s;' % (prefix, k.capitalize(), nxt(), T, lit(k, values(k)[3 if len(values(k)) > 3 else 0])) for k, T in CAP.items())


out.append('struct Nest { before @%d :Int8; g :group { %s inner :group { %s } } after @%d :Bool = true; }' % (nxt(), all_kinds('a'), all_kinds('b'), nxt()))
n[0] = 0
out.append('struct Uni { union { nothing @%d :Void; %s grp :group { %s } } x @%d :Int16 = -1; named :union { none @%d :Void; %s } }' % (
    nxt(), all_kinds('a'), all_kinds('g'), nxt(), nxt(), all_kinds('n')))
out.append('')

# nullables
for flagname, ft, fd in (('B', 'Bool', ''), ('Bt', 'Bool', ' = true'), ('I', 'Int8', ''), ('It', 'Int8', ' = 1')):
    n[0] = 0
    fs = []
    for k, T in CAP.items():
        if flagname != 'B' and k not in ('int16', 'float64', 'bool', 'enum'):
            continue
        v = values(k)
        fs.append('%s :group $Py.nullable { isNull @%d :%s%s; value @%d :%s; }' % ('p' + k.capitalize(), nxt(), ft, fd, nxt(), T))
        fs.append('%s :group $Py.nullable { isNull @%d :%s%s; value @%d :%s = %s; }' % ('q' + k.capitalize(), nxt(), ft, fd, nxt(), T, lit(k, v[3 if len(v) > 3 else 0])))
    fs.append('point :group $Py.nullable { isNull @%d :%s%s; value :group { x @%d :Int8; y @%d :Float64 = 2.5; z @%d :Text; } }' % (nxt(), ft, fd, nxt(), nxt(), nxt()))
    out.append('struct Null%s { %s }' % (flagname, ' '.join(fs)))
n[0] = 0
out.append('struct NullIn { g :group { a :group $Py.nullable { isNull @0 :Bool = true; value @1 :Int32 = 5; } t @2 :Text; } '
           'union { none @3 :Void; b :group $Py.nullable { isNull @4 :Bool; value @5 :Int16 = -5; } c @6 :Text; } }')
out.append('struct NullC $Py.options(convertCase=false) { aB :group $Py.nullable { isNull @0 :Bool; value @1 :Int32; } }')
out.append('')

# every kind of pointer, flat and in a group and in a union
PTR = [('text', 'Text', ''), ('textU', 'Text', ' $Py.options(textType=unicode)'), ('data', 'Data', ''), ('st', 'Leaf', ''), ('lvoid', 'List(Void)', ''),
       ('lbool', 'List(Bool)', ''), ('li8', 'List(Int8)', ''), ('lf64', 'List(Float64)', ''), ('lcolor', 'List(Color)', ''), ('ltext', 'List(Text)', ''),
       ('ltextU', 'List(Text)', ' $Py.options(textType=unicode)'), ('ldata', 'List(Data)', ''), ('lleaf', 'List(Leaf)', ''), ('lli16', 'List(List(Int16))', '')]
n[0] = 0


def all_ptrs(prefix, skip=()):
    return ' '.join('%s%s @%d :%s%s;' % (prefix, nm[0].upper() + nm[1:], nxt(), T, ann) for nm, T, ann in PTR if nm not in skip)


out.append('struct Anys { n @0 :Int8; any @1 :AnyPointer; g :group { any @2 :AnyPointer; } u :union { none @3 :Void; any @4 :AnyPointer; } }')
out.append('struct Ptrs { n @%d :Int32 = 1; %s g :group { %s } u :union { none @%d :Void; %s } }' % (nxt(), all_ptrs('p'), all_ptrs('g'), nxt(), all_ptrs('u')))
out.append('')

out.append('''struct Virt {
  x @0 :Int64 = 3; y @1 :Bool = true; t @2 :Text; tU @3 :Text $Py.options(textType=unicode); f @4 :Float32 = 0.5; c @5 :Color = green; s @6 :Leaf; l @7 :List(Int8);
  g :group { a @8 :Int8; b @9 :Text; }
  one @10 :Void $Py.group("x");
  many @11 :Void $Py.group("l, s , c,f,tU, t,y,x, g");
  some @12 :Void $Py.group("y,t") $Py.key("*");
  rev @13 :Void $Py.group("t,y") $Py.key("t, y");
  last @14 :Int16 = -4;
  camelCase @15 :UInt8 = 9;
  camelGroup @16 :Void $Py.group("camelCase,last") $Py.key("camelCase");
}''')
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'schemas', 'defaults.capnp')
with open(path, 'w') as f:
    f.write('\n'.join(out) + '\n')
