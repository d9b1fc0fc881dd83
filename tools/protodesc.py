#!/opt/venv/bin/python
"""protodesc.py SRC OUT.json: message descriptors of every .proto under SRC, keyed by C++ class name."""
import json, os, subprocess, sys, tempfile
os.environ['PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION'] = 'python'
from google.protobuf import descriptor_pb2 as dp
src, out = sys.argv[1], sys.argv[2]
files = sorted(os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(src) for f in fs if f.endswith('.proto'))
with tempfile.NamedTemporaryFile() as t:
    subprocess.check_call(['protoc', '-I' + src, '--descriptor_set_out=' + t.name] + files, stderr=subprocess.DEVNULL)
    fds = dp.FileDescriptorSet.FromString(open(t.name, 'rb').read())
F = dp.FieldDescriptorProto
SC = {F.TYPE_DOUBLE: ('double', {'k': 'real', 'w': 64}), F.TYPE_FLOAT: ('float', {'k': 'real', 'w': 32}),
      F.TYPE_INT64: ('long', {'k': 'int', 'w': 64, 's': True}), F.TYPE_SINT64: ('long', {'k': 'int', 'w': 64, 's': True}),
      F.TYPE_SFIXED64: ('long', {'k': 'int', 'w': 64, 's': True}),
      F.TYPE_UINT64: ('unsigned long', {'k': 'int', 'w': 64, 's': False}), F.TYPE_FIXED64: ('unsigned long', {'k': 'int', 'w': 64, 's': False}),
      F.TYPE_INT32: ('int', {'k': 'int', 'w': 32, 's': True}), F.TYPE_SINT32: ('int', {'k': 'int', 'w': 32, 's': True}),
      F.TYPE_SFIXED32: ('int', {'k': 'int', 'w': 32, 's': True}),
      F.TYPE_UINT32: ('unsigned int', {'k': 'int', 'w': 32, 's': False}), F.TYPE_FIXED32: ('unsigned int', {'k': 'int', 'w': 32, 's': False}),
      F.TYPE_BOOL: ('bool', {'k': 'bool'})}
STRD = {'k': 'rec', 'n': 'std::basic_string', 'args': ['char'], 'proto': False}
res, enums, cxx = {}, {}, {}


def index(pkg, cpre, m):
    full = pkg + '.' + m.name
    c = cpre + m.name
    cxx['.' + full] = c
    for e in m.enum_type:
        cxx['.' + full + '.' + e.name] = c + '_' + e.name
        enums[c + '_' + e.name] = {v.name: v.number for v in e.value}
    for n in m.nested_type:
        index(full, c + '_', n)


for f in fds.file:
    ns = f.package.replace('.', '::') + '::'
    for e in f.enum_type:
        cxx['.' + f.package + '.' + e.name] = ns + e.name
        enums[ns + e.name] = {v.name: v.number for v in e.value}
    for m in f.message_type:
        index(f.package, ns, m)


def msg(pkg, m, syntax):
    full = pkg + '.' + m.name
    c = cxx['.' + full]
    maps = {'.' + full + '.' + n.name: n for n in m.nested_type if n.options.map_entry}
    fields = []
    for f in m.field:
        d = {'name': f.name.lower(), 'num': f.number, 'repeated': f.label == F.LABEL_REPEATED}
        if f.type_name in maps:
            d['map'] = True
            kv = []
            for q in maps[f.type_name].field:
                if q.type in SC:
                    kv.append(SC[q.type][0])
                elif q.type in (F.TYPE_STRING, F.TYPE_BYTES):
                    kv.append('std::basic_string<char>')
                else:
                    kv.append(cxx.get(q.type_name, q.type_name))
            d['ctype'] = 'google::protobuf::Map<%s, %s>' % tuple(kv)
            d['desc'] = {'k': 'rec', 'n': 'google::protobuf::Map', 'args': kv, 'proto': False}
        elif f.type in SC:
            d['ctype'], d['desc'] = SC[f.type]
        elif f.type in (F.TYPE_STRING, F.TYPE_BYTES):
            d['ctype'], d['desc'] = 'std::basic_string<char>', STRD
        elif f.type == F.TYPE_ENUM:
            d['ctype'] = cxx.get(f.type_name, f.type_name)
            d['desc'] = {'k': 'enum', 'n': d['ctype']}
        else:
            d['ctype'] = cxx.get(f.type_name, f.type_name)
            d['desc'] = {'k': 'rec', 'n': d['ctype'], 'args': [], 'proto': True}
        d['presence'] = (not d['repeated']) and (syntax != 'proto3' or f.HasField('oneof_index') or f.type == F.TYPE_MESSAGE)
        if f.HasField('oneof_index'):
            d['oneof'] = m.oneof_decl[f.oneof_index].name
        if f.HasField('default_value'):
            v = f.default_value
            if f.type == F.TYPE_ENUM:
                v = enums[d['ctype']][v]
            elif f.type == F.TYPE_BOOL:
                v = v == 'true'
            elif f.type in (F.TYPE_FLOAT, F.TYPE_DOUBLE):
                v = float(v)
            elif f.type not in (F.TYPE_STRING, F.TYPE_BYTES):
                v = int(v)
            d['default'] = v
        elif f.type == F.TYPE_ENUM and not d['repeated']:
            if d['ctype'] in enums and syntax != 'proto3':
                d['default'] = next(iter(enums[d['ctype']].values()))
        fields.append(d)
    res[c] = {'fields': fields, 'full': full}
    for n in m.nested_type:
        if not n.options.map_entry:
            msg(full, n, syntax)


for f in fds.file:
    for m in f.message_type:
        msg(f.package, m, f.syntax)
json.dump({'messages': res, 'enums': enums}, open(out, 'w'))
