"""writes mc/schemas/evo.capnp: versions of a struct, each a prefix of the next"""
import os
FIELDS = [['a @0 :Int32 = 7;'], ['t @1 :Text;'], ['b @2 :Bool = true;', 'c @3 :Int8;'], ['l @4 :List(Int16);', 'd @5 :Int64 = -9;'],
          ['s @6 :Rec%d;', 'f @7 :Float32 = 1.5;', 'e @8 :Color = blue;'], ['ls @9 :List(Rec%d);', 'dat @10 :Data;'],
          ['g :group { gx @11 :Int64; gt @12 :Text; }', 'union { un @13 :Void; ui @14 :Int16; ut @15 :Text; }', 'tU @16 :Text $Py.options(textType=unicode);', 'w @17 :UInt64 = 5;']]
out = ['@0xc0ffee1234567802;', 'using Py = import "/capnpy/annotate.capnp";', 'enum Color { red @0; green @1; blue @2; }', '']
for k in range(len(FIELDS) + 1):
    fs = [x % k if '%' in x else x for g in FIELDS[:k] for x in g]
    out.append('struct Rec%d { %s }' % (k, ' '.join(fs)))
    out.append('struct Hold%d { n @0 :Int8; r @1 :Rec%d; rs @2 :List(Rec%d); rr @3 :List(List(Rec%d)); any @4 :AnyPointer; z @5 :Text; }' % (k, k, k, k))
    out.append('struct Put%d { n @0 :Int8; r @1 :Rec%d; rs @2 :List(Rec%d); rr @3 :List(List(Rec%d)); z @4 :Text; }' % (k, k, k, k))
out.append('')
out.append('struct Un0 { a @0 :Int32; x @1 :Text; m @2 :Int16 = 4; }')
out.append('struct Un1 { a @0 :Int32; union { x @1 :Text; y @3 :Int16; } m @2 :Int16 = 4; }')
out.append('struct Un2 { a @0 :Int32; union { x @1 :Text; y @3 :Int16; z @4 :Data; v @5 :Void; grp :group { p @6 :Int8 = 3; q @7 :Text; } } m @2 :Int16 = 4; }')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'schemas', 'evo.capnp'), 'w') as f:
    f.write('\n'.join(out) + '\n')
