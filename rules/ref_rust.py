"""The Rust code that stands for a schema: the reference. A program is {item: text} with white space irrelevant; an item is
(path of its module, its heading). Names are given as objects with .snake and .pascal."""
from collections import namedtuple

Field = namedtuple('Field', 'name type rule index')
Decl = namedtuple('Decl', 'kind name fields')
Schema = namedtuple('Schema', 'ns imports decls')  # imports: [(name, namespace as a tuple of names)]

PRIM = {'Bool': 'bool', 'Bytes': 'Vec<u8>', 'F64': 'f64', 'S64': 'i64', 'String': 'String', 'U64': 'u64', 'Unit': '()'}
EOF = 'if let std::io::ErrorKind::UnexpectedEof = err.kind() { break; } return Err(err);'


def own_atlas(t):
    """arrays of these keep the sizes of their elements"""
    return t[0] in ('array', 'custom') or t in (('prim', 'Bytes'), ('prim', 'String'))


def integer(t):
    return t in (('prim', 'Bool'), ('prim', 'S64'), ('prim', 'U64'))


class Rust:
    def __init__(self, schema):
        self.s, self.imports = schema, {a.snake: n for a, n in schema.imports}
        self.S = 'super::' * len(schema.ns)

    # ---- types
    def path(self, t):
        here, there = [n.snake for n in self.s.ns], [n.snake for n in (self.s.ns if t[1] is None else self.imports[t[1].snake])]
        k = 0
        while k < min(len(here), len(there)) and here[k] == there[k]:
            k += 1
        return 'super::' * (len(here) - k) + ''.join(n + '::' for n in there[k:])

    def type(self, t, d):
        if t[0] == 'custom':
            return self.path(t) + t[2].pascal + d
        if d != 'Atlas':
            return PRIM[t[1]] if t[0] == 'prim' else 'Vec<%s>' % self.type(t[1], d)
        return '(usize, Vec<%s>)' % self.type(t[1], d) if t[0] == 'array' and own_atlas(t[1]) else 'usize'

    def size_of(self, t):
        """the size of a value, from the reference payload_atlas"""
        return 'payload_atlas.size()' if t[0] == 'custom' else 'payload_atlas.0' if t[0] == 'array' and own_atlas(t[1]) else '*payload_atlas'

    # ---- what a value takes, from the reference payload
    def varint_size(self, field):
        if not field:
            return '(%svarint_size_from_value(*payload))' % self.S
        return '(match *payload { 0_u64 => { 0_usize }, 1_u64..=567_382_630_219_903_u64 => { %svarint_size_from_value(*payload) }, 567_382_630_219_904_u64..=18_446_744_073_709_551_615_u64 => { 8_usize } })' % self.S

    def atlas(self, t, field):
        if t[0] == 'custom':
            return '(payload.atlas())'
        if t[0] == 'array':
            e = t[1]
            if own_atlas(e):
                return ('({ let atlases = payload.iter().map(|payload| %s).collect::<Vec<_>>(); (atlases.iter().fold(0_usize, |x, payload_atlas| { let atlas_size = %s; x + %svarint_size_from_value(atlas_size as u64) + atlas_size }), atlases) })'
                        % (self.atlas(e, False), self.size_of(e), self.S))
            if e[1] == 'Unit':
                return '({ let payload = &(payload.len() as u64); %s })' % self.varint_size(field)
            if e[1] == 'F64':
                return '(8_usize * payload.len())'
            return '(payload.iter().fold(0_usize, |x, payload| x + %s))' % self.atlas(e, False)
        return {'Bool': '(usize::from(*payload))' if field else '(1_usize)', 'Bytes': '(payload.len())', 'String': '(payload.len())', 'Unit': '(0_usize)',
                'F64': '(if payload.to_bits() == 0_u64 { 0_usize } else { 8_usize })' if field else '(8_usize)',
                'S64': '({ let zigzag = %szigzag_encode(*payload); let payload = &zigzag; %s })' % (self.S, self.varint_size(field)),
                'U64': self.varint_size(field)}[t[1]]

    # ---- writing a value
    def write_varint(self, e, field):
        if not field:
            return '{ let varint = %s; %sserialize_varint(varint, writer)?; }' % (e, self.S)
        return ('{ let varint = %s; match varint { 0_u64 => {} 1_u64..=567_382_630_219_903_u64 => %sserialize_varint(varint, writer)?, '
                '567_382_630_219_904_u64..=18_446_744_073_709_551_615_u64 => writer.write_all(&varint.to_le_bytes())?, } }' % (e, self.S))

    def write(self, t, field):
        if t[0] == 'custom':
            return 'payload.serialize_with_atlas(writer, payload_atlas)?;'
        if t[0] == 'array':
            e = t[1]
            if own_atlas(e):
                return 'for (payload, payload_atlas) in payload.iter().zip(payload_atlas.1.iter()) { %sserialize_varint(%s as u64, writer)?; %s }' % (self.S, self.size_of(e), self.write(e, False))
            if e[1] == 'Unit':
                return self.write_varint('payload.len() as u64', field)
            return 'for payload in payload { %s }' % self.write(e, False)
        return {'Bool': self.write_varint('u64::from(*payload)', field), 'Bytes': 'writer.write_all(payload)?;', 'String': 'writer.write_all(payload.as_bytes())?;', 'Unit': '',
                'F64': 'if payload.to_bits() != 0_u64 { writer.write_all(&payload.to_le_bytes())?; }' if field else 'writer.write_all(&payload.to_le_bytes())?;',
                'S64': self.write_varint('%szigzag_encode(*payload)' % self.S, field), 'U64': self.write_varint('*payload', field)}[t[1]]

    def header(self, f):
        return '%sserialize_field_header(writer, %d_u64, %s, %s)?;' % (self.S, f.index, self.size_of(f.type), 'true' if integer(f.type) else 'false')

    # ---- reading a value
    def read_varint(self, field):
        if not field:
            return 'let payload = %sdeserialize_varint(&mut sub_reader)?;' % self.S
        return ('let payload = match payload_size { 0_usize => 0_u64, 8_usize => { let mut buffer = [0; 8]; ::std::io::Read::read_exact(&mut sub_reader, &mut buffer[..])?; u64::from_le_bytes(buffer) } '
                '_ => %sdeserialize_varint(&mut sub_reader)?, };' % self.S)

    def read(self, t, field):
        """statements that leave the value in payload"""
        if t[0] == 'custom':
            return 'let payload = %sIn::deserialize_from_reader_ref(&mut sub_reader)?;' % (self.path(t) + t[2].pascal)
        if t[0] == 'array':
            e = t[1]
            if own_atlas(e):
                return ('let mut payload = Vec::new(); loop { let payload_size = match %sdeserialize_varint(&mut sub_reader) { Ok(payload_size) => payload_size as usize, Err(err) => { %s } }; '
                        'let mut sub_reader = ::std::io::Read::take(&mut sub_reader, payload_size as u64); payload.push({ %s payload }); }' % (self.S, EOF, self.read(e, False)))
            if e[1] == 'Unit':
                return self.read_varint(field) + ' let payload = vec![(); payload as usize];'
            return ('fn deserialize_element<T: ::std::io::BufRead>(mut sub_reader: &mut T) -> ::std::io::Result<%s> { %s Ok(payload) } let mut payload = Vec::new(); %s'
                    'loop { payload.push(match deserialize_element(&mut sub_reader) { Ok(element) => element, Err(err) => { %s } }); }'
                    % (self.type(e, 'In'), self.read(e, False), 'payload.reserve_exact(payload_size); ' if e[1] == 'F64' else '', EOF))
        return {'Bool': self.read_varint(field) + ' let payload = payload != 0_u64;', 'S64': self.read_varint(field) + ' let payload = %szigzag_decode(payload);' % self.S, 'U64': self.read_varint(field),
                'Bytes': 'let mut payload = vec![]; payload.reserve_exact(payload_size); ::std::io::Read::read_to_end(&mut sub_reader, &mut payload)?;',
                'String': 'let mut payload = String::new(); payload.reserve_exact(payload_size); ::std::io::Read::read_to_string(&mut sub_reader, &mut payload)?;',
                'Unit': 'let payload = ();',
                'F64': 'let payload = if payload_size == 0_usize { 0.0_f64 } else { let mut buffer = [0; 8]; ::std::io::Read::read_exact(&mut sub_reader, &mut buffer)?; f64::from_le_bytes(buffer) };' if field else
                       'let mut buffer = [0; 8]; ::std::io::Read::read_exact(&mut sub_reader, &mut buffer)?; let payload = f64::from_le_bytes(buffer);'}[t[1]]

    # ---- turning what is sent into what is received
    def into(self, t, e):
        x = t
        while x[0] == 'array':
            x = x[1]
        if t[0] == 'prim' or x[0] == 'prim':
            return e + '.into()'
        if t[0] == 'custom':
            return e + '.into()'
        return '%s.into_iter().map(|x| %s).collect::<Vec<_>>()' % (e, self.into(t[1], 'x'))

    # ---- declarations
    def text(self):
        return ' '.join('%s { %s }' % (k, v) for k, v in self.items().items())

    def items(self):
        out = {}
        for d in self.s.decls:
            n = d.name.pascal
            out.update({k: v for k, v in (self.struct(d) if d.kind == 'Struct' else self.choice(d)).items()})
            out['impl %sSerialize for %sOut' % (self.S, n)] = ('fn size(&self) -> usize { self.atlas().size() } fn serialize<T: ::std::io::Write>(&self, mut writer: T) -> ::std::io::Result<()> '
                                                               '{ let atlas = self.atlas(); self.serialize_with_atlas(&mut writer, &atlas) }')
            out['impl %sDeserialize for %sIn' % (self.S, n)] = 'fn deserialize<T: ::std::io::BufRead>(mut reader: T) -> ::std::io::Result<Self> { Self::deserialize_from_reader_ref(&mut reader) }'
        return out

    def signatures(self, n, atlas, write, read, size):
        return {'impl %sOut' % n: 'pub fn atlas(&self) -> %sAtlas { %s } pub fn serialize_with_atlas<T: ::std::io::Write>( &self, writer: &mut T, atlas: &%sAtlas, ) -> ::std::io::Result<()> { %s }' % (n, atlas, n, write),
                'impl %sIn' % n: 'pub fn deserialize_from_reader_ref<T: ::std::io::BufRead>( reader: &mut T, ) -> ::std::io::Result<Self> { %s }' % read,
                'impl %sAtlas' % n: 'pub fn size(&self) -> usize { %s }' % size}

    def struct(self, d):
        n, out = d.name.pascal, {}

        def opt(f, x):
            return 'Option<%s>' % self.type(f.type, x) if f.rule == 'Optional' or f.rule == 'Asymmetric' and x == 'In' else self.type(f.type, x)
        for x in ('Atlas', 'Out', 'In'):
            out['#[derive(Clone, Debug)] pub struct %s%s' % (n, x)] = ('pub _size: usize, ' if x == 'Atlas' else '') + ' '.join('pub %s: %s,' % (f.name.snake, opt(f, x)) for f in d.fields)
        out['impl From<%sOut> for %sIn' % (n, n)] = 'fn from(message: %sOut) -> Self { %sIn { %s } }' % (n, n, ' '.join('%s: %s,' % (
            f.name.snake, 'message.%s.map(|payload| %s)' % (f.name.snake, self.into(f.type, 'payload')) if f.rule == 'Optional' else
            ('Some(%s)' if f.rule == 'Asymmetric' else '%s') % self.into(f.type, 'message.' + f.name.snake)) for f in d.fields))
        lets, sizes, writes, reads = [], [], [], []
        for f in d.fields:
            v, o = f.name.snake, f.rule == 'Optional'
            one = 'let payload_size = %s; %sfield_header_size(%d_u64, payload_size, %s) + payload_size' % (self.size_of(f.type), self.S, f.index, 'true' if integer(f.type) else 'false')
            lets.append('let _%s = self.%s.as_ref().map(|payload| %s);' % (v, v, self.atlas(f.type, True)) if o else 'let _%s = { let payload = &self.%s; %s };' % (v, v, self.atlas(f.type, True)))
            sizes.append('_%s.as_ref().map_or(0_usize, |payload_atlas| { %s })' % (v, one) if o else '{ let payload_atlas = &_%s; %s }' % (v, one))
            writes.append('if let (Some(payload), Some(payload_atlas)) = (&self.%s, &atlas.%s) { %s %s }' % (v, v, self.header(f), self.write(f.type, True)) if o else
                          '{ let payload = &self.%s; let payload_atlas = &atlas.%s; %s %s }' % (v, v, self.header(f), self.write(f.type, True)))
            reads.append('%d => { %s _%s.get_or_insert(payload); }' % (f.index, self.read(f.type, True), v))
        atlas = '%s %sAtlas { _size: %s, %s }' % (' '.join(lets), n, ' + '.join(sizes) or '0', ' '.join('%s: _%s,' % (f.name.snake, f.name.snake) for f in d.fields))
        need = [f for f in d.fields if f.rule == 'Required']
        read = ' '.join('let mut _%s: Option<%s> = None;' % (f.name.snake, self.type(f.type, 'In')) for f in d.fields)
        read += (' loop { let (index, payload_size) = match %sdeserialize_field_header(&mut *reader) { Ok(header) => header, Err(err) => { %s } }; let mut sub_reader = ::std::io::Read::take(&mut *reader, payload_size as u64); '
                 'match index { %s _ => { %sskip(&mut sub_reader, payload_size)?; } } }' % (self.S, EOF, ' '.join(reads), self.S))
        if need:
            read += ' if %s { return Err(::std::io::Error::new( ::std::io::ErrorKind::InvalidData, %sMISSING_FIELDS_ERROR_MESSAGE, )); }' % (' || '.join('_%s.is_none()' % f.name.snake for f in need), self.S)
        read += ' Ok(%sIn { %s })' % (n, ' '.join('%s: _%s%s,' % (f.name.snake, f.name.snake, '.unwrap()' if f.rule == 'Required' else '') for f in d.fields))
        out.update(self.signatures(n, atlas, ' '.join(writes) + ' Ok(())', read, 'self._size'))
        return out

    def choice(self, d):
        n, out = d.name.pascal, {}

        def unit(f, x):
            return f.type == ('prim', 'Unit') and x != 'Atlas'

        def fall(f, x):
            return f.rule == 'Optional' or f.rule == 'Asymmetric' and x != 'In'

        def variant(f, x):
            a = (['usize'] if x == 'Atlas' else []) + ([] if unit(f, x) else [self.type(f.type, x)]) + (['Box<%s%s>' % (n, x)] if fall(f, x) else [])
            return f.name.pascal + ('(%s)' % ', '.join(a) if a else '') + ','

        def pat(x, f, *a):
            a = [y for y in a if y]
            return '%s%s::%s' % (n, x, f.name.pascal) + ('(%s)' % ', '.join(a) if a else '')
        for x in ('Atlas', 'Out', 'In'):
            out['#[derive(Clone, Debug)] pub enum %s%s' % (n, x)] = ' '.join(variant(f, x) for f in d.fields)
        conv, atlas, write, read, size = [], [], [], [], []
        for f in d.fields:
            u, o, i = unit(f, 'Out'), fall(f, 'Out'), fall(f, 'In')
            p, fb = '' if u else 'payload', 'fallback' if o else ''
            conv.append('%s => %s,' % (pat('Out', f, p, fb), pat('In', f, '' if u else self.into(f.type, 'payload'), 'Box::new((*fallback).into())' if i else '')))
            atlas.append('%s => { %s }' % (pat('Out', f, p and 'ref payload', fb and 'ref fallback'), ' '.join((['let payload = &();'] if u else []) + [
                'let payload_atlas = %s;' % self.atlas(f.type, True), 'let payload_size = { let payload_atlas = &payload_atlas; %s };' % self.size_of(f.type)] + (['let fallback_atlas = fallback.atlas();'] if o else []) + [
                    pat('Atlas', f, '%sfield_header_size(%d_u64, payload_size, %s) + payload_size%s' % (self.S, f.index, 'true' if integer(f.type) else 'false', ' + fallback_atlas.size()' if o else ''),
                        'payload_atlas', 'Box::new(fallback_atlas)' if o else '')])))
            write.append('(%s, %s) => { %s %s %s }' % (pat('Out', f, p, fb), pat('Atlas', f, '_', 'payload_atlas', o and 'fallback_atlas'), self.header(f), self.write(f.type, True),
                                                       'fallback.serialize_with_atlas(writer, fallback_atlas)' if o else 'Ok(())'))
            read.append('%d => { %s %s return Ok(%s); }' % (f.index, self.read(f.type, True),
                                                            'let fallback = Box::new(%sIn::deserialize_from_reader_ref(&mut *reader)?);' % n if i else '%sfinish(&mut *reader)?;' % self.S,
                                                            pat('In', f, p, 'fallback' if i else '')))
            size.append('%s => *size,' % pat('Atlas', f, 'ref size', '_', '_' if o else ''))
        out['impl From<%sOut> for %sIn' % (n, n)] = 'fn from(message: %sOut) -> Self { match message { %s } }' % (n, ' '.join(conv))
        out.update(self.signatures(
            n, 'match *self { %s }' % ' '.join(atlas), 'match (self, atlas) { %s (_, _) => panic!(), }' % ' '.join(write),
            'loop { let (index, payload_size) = %sdeserialize_field_header(&mut *reader)?; let mut sub_reader = ::std::io::Read::take(&mut *reader, payload_size as u64); match index { %s _ => { %sskip(&mut sub_reader, payload_size)?; } } }'
            % (self.S, ' '.join(read), self.S), 'match *self { %s }' % ' '.join(size)))
        return out
