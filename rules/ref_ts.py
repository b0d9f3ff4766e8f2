"""The TypeScript code that stands for a schema: the reference, in the manner of ref_rust."""
from ref_rust import own_atlas, integer

PRIM = {'Bool': 'boolean', 'Bytes': 'ArrayBuffer', 'F64': 'number', 'S64': 'bigint', 'String': 'string', 'U64': 'bigint', 'Unit': 'null'}
STOP = 'catch (e) { if (e instanceof RangeError) { break; } else { throw e; } }'
TARGET = 'const targetBuffer = new Uint8Array( dataView.buffer, dataView.byteOffset, dataView.byteLength, );'


def view(size):
    return 'const dataView = new DataView( dataViewAlias.buffer, dataViewAlias.byteOffset + offset, %s, ); const oldOffset = offset; offset = 0;' % size


class TypeScript:
    def __init__(self, schema):
        self.s, self.imports = schema, {a.snake: n for a, n in schema.imports}

    # ---- types
    def path(self, t):
        return ''.join(n.pascal + '.' for n in (self.s.ns if t[1] is None else self.imports[t[1].snake])) + t[2].pascal

    def type(self, t, d):
        if t[0] == 'custom':
            return self.path(t) + d
        if d != 'Atlas':
            return PRIM[t[1]] if t[0] == 'prim' else self.type(t[1], d) + '[]'
        if t[0] == 'array' and own_atlas(t[1]):
            return '{ $size: number; $elements: %s[] }' % self.type(t[1], d)
        return 'Uint8Array' if t == ('prim', 'String') else 'number'

    def size_of(self, t):
        """the size of a value, from the reference payloadAtlas"""
        return '(payloadAtlas as { $size: number }).$size' if t[0] == 'custom' else 'payloadAtlas.$size' if t[0] == 'array' and own_atlas(t[1]) else 'payloadAtlas.byteLength' if t == ('prim', 'String') else 'payloadAtlas'

    # ---- what a value takes: statements that set payloadAtlas
    def varint_size(self, e, field):
        if not field:
            return 'payloadAtlas = varintSizeFromValue(%s);' % e
        return 'if (%s === 0n) { payloadAtlas = 0; } else if (%s < 567_382_630_219_904n) { payloadAtlas = varintSizeFromValue(%s); } else { payloadAtlas = 8; }' % (e, e, e)

    def atlas(self, t, field):
        if t[0] == 'custom':
            return 'payloadAtlas = %s.atlas(payload);' % self.path(t)
        if t[0] == 'array':
            e = t[1]
            loop = 'const oldPayload = payload; for (let i = 0; i < oldPayload.length; i += 1) { const payload = oldPayload[i];'
            if own_atlas(e):
                return ('{ let size = 0; let elements = []; %s let payloadAtlas; %s elements.push(payloadAtlas); const payloadSize = %s; size += varintSizeFromValue(BigInt(payloadSize)) + payloadSize; } '
                        'payloadAtlas = { $size: size, $elements: elements }; }' % (loop, self.atlas(e, False), self.size_of(e)))
            if e[1] == 'Unit':
                return '{ const oldPayload = payload; { const payload = BigInt(oldPayload.length); %s } }' % self.varint_size('payload', field)
            if e[1] == 'F64':
                return 'payloadAtlas = 8 * payload.length;'
            return '{ let arraySize = 0; %s let payloadAtlas = 0; %s arraySize += payloadAtlas; } payloadAtlas = arraySize; }' % (loop, self.atlas(e, False))
        return {'Bool': 'if (payload) { payloadAtlas = 1; } else { payloadAtlas = 0; }' if field else 'payloadAtlas = 1;', 'Bytes': 'payloadAtlas = payload.byteLength;',
                'F64': 'if (Object.is(payload, 0)) { payloadAtlas = 0; } else { payloadAtlas = 8; }' if field else 'payloadAtlas = 8;',
                'S64': '{ const zigzag = zigzagEncode(payload); %s }' % self.varint_size('zigzag', True) if field else self.varint_size('zigzagEncode(payload)', False),
                'String': 'payloadAtlas = textEncoder.encode(payload);', 'U64': self.varint_size('payload', field), 'Unit': 'payloadAtlas = 0;'}[t[1]]

    # ---- writing a value
    def write_varint(self, e, field):
        if not field:
            return '{ const varint = %s; offset = serializeVarint(dataView, offset, varint); }' % e
        return ('{ const varint = %s; if (varint > 567_382_630_219_903n) { dataView.setBigUint64(offset, varint, true); offset += 8; } else if (varint !== 0n) { offset = serializeVarint(dataView, offset, varint); } }' % e)

    def write(self, t, field):
        if t[0] == 'custom':
            return 'offset = %s.serializeWithAtlasUnsafe(dataView, offset, payload, payloadAtlas);' % self.path(t)
        if t[0] == 'array':
            e = t[1]
            if own_atlas(e):
                return ('{ const oldPayload = payload; const oldPayloadAtlas = payloadAtlas; for (let i = 0; i < oldPayload.length; i += 1) { const payload = oldPayload[i]; const payloadAtlas = oldPayloadAtlas.$elements[i]; '
                        'offset = serializeVarint(dataView, offset, BigInt(%s)); %s } }' % (self.size_of(e), self.write(e, False)))
            if e[1] == 'Unit':
                return self.write_varint('BigInt(payload.length)', field)
            return '{ const oldPayload = payload; for (let i = 0; i < oldPayload.length; i += 1) { const payload = oldPayload[i]; %s } }' % self.write(e, False)
        f64 = 'dataView.setFloat64(offset, payload, true); offset += 8;'
        return {'Bool': self.write_varint('payload ? 1n : 0n', field), 'S64': self.write_varint('zigzagEncode(payload)', field), 'U64': self.write_varint('payload', field), 'Unit': '',
                'Bytes': '{ const sourceBuffer = new Uint8Array(payload); %s targetBuffer.set(sourceBuffer, offset); offset += sourceBuffer.byteLength; }' % TARGET,
                'String': '{ %s targetBuffer.set(payloadAtlas, offset); offset += payloadAtlas.byteLength; }' % TARGET,
                'F64': 'if (payloadAtlas !== 0) { %s }' % f64 if field else f64}[t[1]]

    def header(self, f):
        return 'offset = serializeFieldHeader(dataView, offset, %dn, payloadSize, %s);' % (f.index, 'true' if integer(f.type) else 'false')

    # ---- reading a value
    def read_varint(self, field):
        if not field:
            return 'let payload; [offset, payload] = deserializeVarint(dataView, offset);'
        return ('let payload; { switch (payloadSize) { case 0: payload = 0n; break; case 8: payload = dataView.getBigUint64(offset, true); offset += 8; break; '
                'default: [offset, payload] = deserializeVarint(dataView, offset); break; } }')

    def read(self, t, field):
        """statements that leave the value in payload"""
        def through(inner, e):
            return 'let payload; { let newPayload; { %s newPayload = %s; } payload = newPayload; }' % (inner, e)
        if t[0] == 'custom':
            return 'let payload = %s.deserializeUnsafe(dataView); offset = dataView.byteLength;' % self.path(t)
        if t[0] == 'array':
            e = t[1]
            new = 'let payload: %s = [];' % self.type(t, 'In')
            if own_atlas(e):
                return (new + ' { const dataViewAlias = dataView; const payloadAlias = payload; { while (true) { let payloadSizeBig; try { [offset, payloadSizeBig] = deserializeVarint(dataViewAlias, offset); } %s '
                        '%s %s offset += oldOffset; payloadAlias.push(payload); } } }' % (STOP, view('Number(payloadSizeBig)'), self.read(e, False)))
            if e[1] == 'Unit':
                return through(self.read_varint(field), 'Array(Number(payload)).fill(null) as null[]')
            return new + ' { const payloadAlias = payload; { while (true) { try { %s payloadAlias.push(payload); } %s } } }' % (self.read(e, False), STOP)
        return {'Bool': through(self.read_varint(field), 'payload !== 0n'), 'U64': self.read_varint(field), 'S64': self.read_varint(field) + ' payload = zigzagDecode(payload);', 'Unit': 'let payload = null;',
                'Bytes': 'let payload = dataView.buffer.slice( dataView.byteOffset + offset, dataView.byteOffset + dataView.byteLength, ); offset = dataView.byteLength;',
                'String': 'let payload = textDecoder.decode( new Uint8Array( dataView.buffer, dataView.byteOffset + offset, dataView.byteLength - offset, ), ); offset = dataView.byteLength;',
                'F64': 'let payload; { switch (payloadSize) { case 0: payload = 0; break; default: payload = dataView.getFloat64(offset, true); offset += 8; break; } }' if field else
                       'let payload = dataView.getFloat64(offset, true); offset += 8;'}[t[1]]

    # ---- declarations
    def text(self):
        out = []
        for d in self.s.decls:
            n, e = d.name.pascal, not d.fields
            types, body = self.struct(d) if d.kind == 'Struct' else self.choice(d)
            for x in ('Atlas', 'Out', 'In'):
                out.append('export type %s%s = %s;' % (n, x, types[x]))
            never = d.kind == 'Choice' and e
            f = {'size(message: %sOut): number' % n: 'return 0;' if e else 'return atlas(message).$size;',
                 'serialize(message: %sOut): ArrayBuffer' % n: 'return unreachable(message);' if never else
                 'const messageAtlas = atlas(message); const arrayBuffer = new ArrayBuffer(messageAtlas.$size); const dataView = new DataView(arrayBuffer); serializeWithAtlasUnsafe(dataView, 0, message, messageAtlas); return arrayBuffer;',
                 'deserialize(bytes: Deserializable): %sIn | Error' % n: 'try { if (bytes instanceof ArrayBuffer) { return deserializeUnsafe(new DataView(bytes)); } if (bytes instanceof DataView) { return deserializeUnsafe(bytes); } '
                 'return deserializeUnsafe(new DataView(bytes.buffer, bytes.byteOffset, bytes.byteLength)); } catch (e) { return e as Error; }',
                 'atlas(message: %sOut): %sAtlas' % (n, n): body[0],
                 'serializeWithAtlasUnsafe( dataView: DataView, offset: number, message: %sOut, atlas: %sAtlas, ): number' % (n, n): body[1],
                 'deserializeUnsafe(dataView: DataView): %sIn' % n: 'const dataViewAlias = dataView; let offset = 0; ' + body[2]}
            out.append('export namespace %s { %s }' % (n, ' '.join('export function %s { %s }' % x for x in f.items())))
        return ' '.join(out)

    def struct(self, d):
        def opt(f, x):
            return self.type(f.type, x) + (' | undefined' if f.rule == 'Optional' or f.rule == 'Asymmetric' and x == 'In' else '')
        types = {x: '{ %s%s }' % ('$size: number; ' if x == 'Atlas' else '', ' '.join('%s: %s;' % (f.name.camel, opt(f, x)) for f in d.fields)) for x in ('Atlas', 'Out', 'In')}
        lets = 'let %s;' % ', '.join('$' + f.name.camel for f in d.fields) if d.fields else ''
        sizes, writes, reads = [], [], []
        for f in d.fields:
            v, o = f.name.camel, f.rule == 'Optional'
            b = '%s $%s = payloadAtlas; const payloadSize = %s; size += fieldHeaderSize(%dn, payloadSize, %s) + payloadSize;' % (self.atlas(f.type, True), v, self.size_of(f.type), f.index, 'true' if integer(f.type) else 'false')
            sizes.append('{ let payloadAtlas; const payload = message.%s; %s }' % (v, 'if (payload !== undefined) { %s }' % b if o else b))
            b = 'const payloadSize = %s; %s %s' % (self.size_of(f.type), self.header(f), self.write(f.type, True))
            writes.append('{ const payload = message.%s; const payloadAtlas = atlas.%s; %s }' % (v, v, 'if (payload !== undefined && payloadAtlas !== undefined) { %s }' % b if o else b))
            reads.append('case %dn: { %s %s offset += oldOffset; $%s = payload; break; }' % (f.index, view('payloadSize'), self.read(f.type, True), v))
        need = ['$%s === undefined' % f.name.camel for f in d.fields if f.rule == 'Required']
        full = ' '.join('%s: $%s,' % (f.name.camel, f.name.camel) for f in d.fields)
        return types, ('let size = 0; %s %s return { $size: size, %s };' % (lets, ' '.join(sizes), full), ' '.join(writes) + ' return offset;',
                       '%s while (true) { let index, payloadSize; try { [offset, index, payloadSize] = deserializeFieldHeader(dataViewAlias, offset); } %s switch (index) { %s default: offset += payloadSize; break; } } %s return { %s };' % (
                           lets, STOP, ' '.join(reads), 'if (%s) { throw new Error(missingFieldsErrorMessage); }' % ' || '.join(need) if need else '', full))

    def choice(self, d):
        n = d.name.pascal

        def fall(f, x):
            return f.rule == 'Optional' or f.rule == 'Asymmetric' and x != 'In'
        types = {x: ' '.join('| { %s }' % '; '.join((['$size: number'] if x == 'Atlas' else ["$field: '%s'" % f.name.camel] if x == 'In' else []) + ['%s: %s' % (f.name.camel, self.type(f.type, x))]
                                                  + (['$fallback: %s%s' % (n, x)] if fall(f, x) else [])) for f in d.fields) + (' | { $field: never }' if x == 'In' and len(d.fields) == 1 else '') or 'never' for x in ('Atlas', 'Out', 'In')}
        sizes, writes, reads = [], [], []
        for f in d.fields:
            v, o, i = f.name.camel, fall(f, 'Out'), fall(f, 'In')
            b = 'true' if integer(f.type) else 'false'
            sizes.append("if ('%s' in message) { let payloadAtlas; const payload = message.%s; %s const payloadSize = %s; %s return { $size: fieldHeaderSize(%dn, payloadSize, %s) + payloadSize%s, %s: payloadAtlas%s }; }" % (
                v, v, self.atlas(f.type, True), self.size_of(f.type), 'const fallbackAtlas = atlas(message.$fallback);' if o else '', f.index, b, ' + fallbackAtlas.$size' if o else '', v, ', $fallback: fallbackAtlas' if o else ''))
            writes.append("if ('%s' in message) { const payload = message.%s; const payloadAtlas = (atlas as any).%s as %s; const payloadSize = %s; %s %s %s return offset; }" % (
                v, v, v, self.type(f.type, 'Atlas'), self.size_of(f.type), self.header(f), self.write(f.type, True),
                'offset = serializeWithAtlasUnsafe(dataView, offset, message.$fallback, (atlas as any).$fallback as %sAtlas);' % n if o else ''))
            reads.append("case %dn: { %s %s %s return { $field: '%s', %s: payload, %s }; }" % (
                f.index, view('payloadSize'), self.read(f.type, True),
                'offset += oldOffset; const $fallback = deserializeUnsafe( new DataView( dataViewAlias.buffer, dataViewAlias.byteOffset + offset, dataViewAlias.byteLength - offset, ), );' if i else '',
                v, v, '$fallback,' if i else ''))
        end = ' return unreachable(message);'
        return types, (' '.join(sizes) + end, ' '.join(writes) + end,
                       'while (true) { const [newOffset, index, payloadSize] = deserializeFieldHeader(dataViewAlias, offset); offset = newOffset; switch (index) { %s default: offset += payloadSize; break; } }' % ' '.join(reads))
