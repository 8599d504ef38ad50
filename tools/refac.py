"""Edits that keep the behaviour (development aid): refac.py DIR writes them as patches.  The checks have to stay quiet."""
import os, sys, subprocess, difflib

P = 'src/basic/parser/'
MOD, CLS, MET, COD, ANN, DEC = (P + n + '.rs' for n in 'mod class method code annotation decode'.split())
POOL = 'src/basic/constpool.rs'
TYP = 'src/types.rs'

EXC = '''    let count = decoder.read_u16()?;
    let mut exceptions = Vec::with_capacity(count as usize);
    for _ in 0..count {
        exceptions.push(decoder.read_u16()?);
    }
    Ok(Attribute::Exceptions(exceptions))
'''
LINES = '''    let count = decoder.read_u16()?;
    let mut table = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let start = decoder.read_u16()?;
        let line_number = decoder.read_u16()?;
        table.push(LineNumber { start, line_number })
    }
    Ok(Attribute::LineNumberTable(table))
'''
R = []


def add(id, *edits):
    R.append((id, edits))


add('map-collect', (MET, EXC, '''    let count = decoder.read_u16()?;
    let exceptions = (0..count)
        .map(|_| decoder.read_u16())
        .collect::<Result<Vec<_>>>()?;
    Ok(Attribute::Exceptions(exceptions))
'''))
add('map-collect-struct', (MET, LINES, '''    let count = decoder.read_u16()?;
    let table = (0..count)
        .map(|_| {
            let start = decoder.read_u16()?;
            let line_number = decoder.read_u16()?;
            Ok(LineNumber { start, line_number })
        })
        .collect::<Result<_>>()?;
    Ok(Attribute::LineNumberTable(table))
'''))
add('while-loop', (MET, EXC, '''    let count = decoder.read_u16()?;
    let mut exceptions = Vec::with_capacity(count as usize);
    let mut read = 0;
    while read < count {
        exceptions.push(decoder.read_u16()?);
        read += 1;
    }
    Ok(Attribute::Exceptions(exceptions))
'''))
add('while-len', (MET, EXC, '''    let count = decoder.read_u16()? as usize;
    let mut exceptions = Vec::new();
    while exceptions.len() < count {
        exceptions.push(decoder.read_u16()?);
    }
    Ok(Attribute::Exceptions(exceptions))
'''))
add('while-down', (MET, EXC, '''    let mut left = decoder.read_u16()?;
    let mut exceptions = Vec::with_capacity(left as usize);
    while left > 0 {
        exceptions.push(decoder.read_u16()?);
        left -= 1;
    }
    Ok(Attribute::Exceptions(exceptions))
'''))
add('loop-break', (MET, EXC, '''    let count = decoder.read_u16()?;
    let mut exceptions = Vec::with_capacity(count as usize);
    let mut i = 0u16;
    loop {
        if i == count {
            break;
        }
        let index = decoder.read_u16()?;
        exceptions.push(index);
        i += 1;
    }
    Ok(Attribute::Exceptions(exceptions))
'''))
add('generic-list', (MET, EXC, '''    Ok(Attribute::Exceptions(read_list(decoder, |d| d.read_u16())?))
'''), (MET, LINES, '''    Ok(Attribute::LineNumberTable(read_list(decoder, |d| {
        Ok(LineNumber {
            start: d.read_u16()?,
            line_number: d.read_u16()?,
        })
    })?))
'''), (MET, '''/// Parses the `Exceptions` attribute.
''', '''/// Reads a list that is preceded by its length.
fn read_list<T, F>(decoder: &mut Decoder, mut read: F) -> Result<Vec<T>>
where
    F: FnMut(&mut Decoder) -> Result<T>,
{
    let count = decoder.read_u16()?;
    let mut list = Vec::with_capacity(count as usize);
    for _ in 0..count {
        list.push(read(decoder)?);
    }
    Ok(list)
}

/// Parses the `Exceptions` attribute.
'''))
add('method-u16-list', (DEC, '''    pub fn read_i8(&mut self)''', '''    /// Reads a list of 16-bit numbers, preceded by its length
    pub fn read_u16_list(&mut self) -> Result<Vec<u16>> {
        let count = self.read_u16()?;
        let mut list = Vec::with_capacity(usize::from(count));
        for _ in 0..count {
            list.push(self.read_u16()?);
        }
        Ok(list)
    }

    pub fn read_i8(&mut self)'''), (MET, EXC, '''    Ok(Attribute::Exceptions(decoder.read_u16_list()?))
'''), (CLS, '''    let count = decoder.read_u16()?;
    let mut packages = Vec::with_capacity(count as usize);
    for _ in 0..count {
        packages.push(decoder.read_u16()?);
    }
    Ok(Attribute::ModulePackages(packages))
''', '''    decoder.read_u16_list().map(Attribute::ModulePackages)
'''), (CLS, '''        let to_count = decoder.read_u16()?;
        let mut to = Vec::with_capacity(to_count as usize);
        for _ in 0..to_count {
            to.push(decoder.read_u16()?);
        }

        exports''', '''        let to = decoder.read_u16_list()?;
        exports'''), (MOD, '''    let interface_count = decoder.read_u16()?;
    let mut interfaces = Vec::with_capacity(interface_count as usize);
    for _ in 0..interface_count {
        interfaces.push(decoder.read_u16()?);
    }
''', '''    let interfaces = decoder.read_u16_list()?;
'''))
add('chunks', (MET, EXC, '''    let count = decoder.read_u16()?;
    let bytes = decoder.read_bytes(2 * count as usize)?;
    let mut exceptions = Vec::with_capacity(count as usize);
    for pair in bytes.chunks(2) {
        exceptions.push(u16::from(pair[0]) << 8 | u16::from(pair[1]));
    }
    Ok(Attribute::Exceptions(exceptions))
'''))
add('flags-helper', (DEC, '''    pub fn read_i8(&mut self)''', '''    /// Reads access flags
    pub fn read_flags(&mut self) -> Result<::basic::tree::AccessFlags> {
        let bits = self.read_u16()?;
        Ok(::basic::tree::AccessFlags::from_bits_truncate(bits))
    }

    pub fn read_i8(&mut self)'''),
    (MET, 'AccessFlags::from_bits_truncate(decoder.read_u16()?);', 'decoder.read_flags()?;'),
    (MOD, '''    let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);

    let name =''', '''    let access_flags = decoder.read_flags()?;

    let name ='''))
add('flags-bits', (MOD, '''    let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);

    let name =''', '''    let bits = decoder.read_u16()?;
    let access_flags = match AccessFlags::from_bits(bits) {
        Some(flags) => flags,
        None => AccessFlags::from_bits_truncate(bits),
    };

    let name ='''))
add('u16-shift', (DEC, 'Ok(BigEndian::read_u16(self.read_bytes(2)?))', '''let bytes = self.read_bytes(2)?;
        Ok(u16::from(bytes[0]) << 8 | u16::from(bytes[1]))'''))
add('u16-two-reads', (DEC, 'Ok(BigEndian::read_u16(self.read_bytes(2)?))', '''self.check(*self.cursor + 2)?;
        let high = u16::from(self.read_u8()?);
        let low = u16::from(self.read_u8()?);
        Ok((high << 8) + low)'''))
add('u32-from-be', (DEC, 'Ok(BigEndian::read_u32(self.read_bytes(4)?))', '''let b = self.read_bytes(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))'''))
add('u32-copy', (DEC, 'Ok(BigEndian::read_u32(self.read_bytes(4)?))', '''let mut raw = [0; 4];
        raw.copy_from_slice(self.read_bytes(4)?);
        Ok(u32::from_be_bytes(raw))'''))
add('u32-halves', (DEC, 'Ok(BigEndian::read_u32(self.read_bytes(4)?))', '''let bytes = self.read_bytes(4)?;
        let high = u32::from(BigEndian::read_u16(&bytes[..2]));
        let low = u32::from(BigEndian::read_u16(&bytes[2..]));
        Ok(high << 16 | low)'''))
add('u32-fold', (DEC, 'Ok(BigEndian::read_u32(self.read_bytes(4)?))', '''let bytes = self.read_bytes(4)?;
        Ok(bytes.iter().fold(0, |n, &b| n << 8 | u32::from(b)))'''))
add('i16-direct', (DEC, 'Ok(self.read_u16()? as i16)', 'Ok(BigEndian::read_i16(self.read_bytes(2)?))'))
add('i8-map', (DEC, 'Ok(self.read_u8()? as i8)', 'self.read_u8().map(|b| b as i8)'))
add('bytes-get', (DEC, '''        let end = *self.cursor + count;
        self.check(end)?;

        let bytes = &self.bytes[*self.cursor..end];
        *self.cursor = end;
        Ok(bytes)
''', '''        let start = *self.cursor;
        let end = start + count;
        if end > self.limit {
            return Err(Error::LimitExceeded);
        }
        let bytes = self.bytes.get(start..end).ok_or(Error::LimitExceeded)?;
        *self.cursor = end;
        Ok(bytes)
'''))
add('bytes-remaining', (DEC, '''        let end = *self.cursor + count;
        self.check(end)?;

        let bytes = &self.bytes[*self.cursor..end];
        *self.cursor = end;
        Ok(bytes)
''', '''        let remaining = self.limit - *self.cursor;
        if count > remaining {
            return Err(Error::LimitExceeded);
        }
        let (_, rest) = self.bytes.split_at(*self.cursor);
        *self.cursor += count;
        Ok(&rest[..count])
'''))
add('checked-add', (DEC, '''    pub fn skip(&mut self, to: usize) -> Result<()> {
        let end = *self.cursor + to;
        self.check(end)?;
''', '''    pub fn skip(&mut self, to: usize) -> Result<()> {
        let end = self.cursor.checked_add(to).ok_or(Error::LimitExceeded)?;
        self.check(end)?;
'''))
add('u8-index', (DEC, 'Ok(self.read_bytes(1)?[0])', '''self.check(*self.cursor + 1)?;
        let byte = self.bytes[*self.cursor];
        *self.cursor += 1;
        Ok(byte)'''))
add('u8-first', (DEC, 'Ok(self.read_bytes(1)?[0])', '''match self.read_bytes(1)?.first() {
            Some(&byte) => Ok(byte),
            None => Err(Error::LimitExceeded),
        }'''))
add('check-if', (DEC, '''        if location <= self.limit {
            Ok(())
        } else {
            Err(Error::LimitExceeded)
        }
    }
}

/// **Very''', '''        if location > self.limit {
            return Err(Error::LimitExceeded);
        }
        Ok(())
    }
}

/// **Very'''))
add('str-match', (DEC, 'let ch = if r1 != 0 && r1 < 0x80 {', 'let ch = if r1 > 0 && r1 <= 0x7F {'),
    (DEC, 'else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {', 'else if r1 & 0xE0 == 0xC0 && i > 1 {'),
    (DEC, 'else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {', 'else if r1 >> 4 == 0xE && i > 2 {'))
add('str-consumed', (DEC, '''        let mut i = length;
        while i > 0 {
''', '''        let end = *self.cursor + length;
        while *self.cursor < end {
            let mut i = end - *self.cursor;
'''))
add('str-pair-fn', (DEC, '''                    if i >= 3 {
                        i -= 3;

                        let r4 = self.read_u8()?;
                        let r5 = u32::from(self.read_continuation()?);
                        let r6 = u32::from(self.read_continuation()?);
                        // a high surrogate has to be followed by a low surrogate
                        if r4 != 0xED || r5 < 0xB0 {
                            return Err(Error::InvalidUTF8);
                        }
                        // the value of r1 and r4 can be ignored
                        0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                            + (r6 & 0x3F)
                    } else {
                        return Err(Error::InvalidUTF8);
                    }
''', '''                    if i < 3 {
                        return Err(Error::InvalidUTF8);
                    }
                    i -= 3;
                    let high = ((r2 & 0x0F) << 6) + (r3 & 0x3F);
                    0x1_0000 + (high << 10) + self.read_low_surrogate()?
'''), (DEC, '''    /// Reads a continuation byte of''', '''    /// Reads the second half of a surrogate pair
    fn read_low_surrogate(&mut self) -> Result<u32> {
        let r4 = self.read_u8()?;
        let r5 = u32::from(self.read_continuation()?);
        let r6 = u32::from(self.read_continuation()?);
        if r4 == 0xED && r5 >= 0xB0 {
            Ok((r5 & 0x0F) << 6 | (r6 & 0x3F))
        } else {
            Err(Error::InvalidUTF8)
        }
    }

    /// Reads a continuation byte of'''))
add('str-char-match', (DEC, '''            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;
            out.push(ch);
''', '''            match char::from_u32(ch) {
                Some(ch) => out.push(ch),
                None => return Err(Error::InvalidUTF8),
            }
'''))
add('item-fn', (MOD, '''    let mut index = 1;
    while index < size {
        let tag = decoder.read_u8()?;

        // match a tag and read the additional information
        let item = match tag {
''', '''    while pool.len() < size {
        let item = read_item(decoder, pool.len())?;
        // equal items keep their own index, long and double take two
        pool.append(item)?;
    }

    Ok(pool)
}

/// Reads a constant
fn read_item(decoder: &mut Decoder, index: u16) -> Result<Item> {
        let tag = decoder.read_u8()?;

        // match a tag and read the additional information
        Ok(match tag {
'''), (MOD, '''            _ => return Err(Error::InvalidCPItem(index)),
        };

        // equal items keep their own index, long and double take two
        pool.append(item)?;
        index = pool.len();
    }

    Ok(pool)
}
''', '''            _ => return Err(Error::InvalidCPItem(index)),
        })
}
'''))
add('pool-index-sum', (MOD, '''        pool.append(item)?;
        index = pool.len();
''', '''        let width = match item {
            Item::Long(_) | Item::Double(_) => 2,
            _ => 1,
        };
        pool.append(item)?;
        index += width;
'''), (MOD, '    let mut index = 1;\n', '    let mut index = 1u16;\n'))
add('pool-for-ref', (MOD, '''            9 => {
                let class = decoder.read_u16()?;
                let name_and_type = decoder.read_u16()?;

                Item::FieldRef {
                    class,
                    name_and_type,
                }
            }
            10 => {
                let class = decoder.read_u16()?;
                let name_and_type = decoder.read_u16()?;

                Item::MethodRef {
                    class,
                    name_and_type,
                }
            }
            11 => {
                let class = decoder.read_u16()?;
                let name_and_type = decoder.read_u16()?;

                Item::InterfaceMethodRef {
                    class,
                    name_and_type,
                }
            }
''', '''            9...11 => {
                let class = decoder.read_u16()?;
                let name_and_type = decoder.read_u16()?;
                match tag {
                    9 => Item::FieldRef { class, name_and_type },
                    10 => Item::MethodRef { class, name_and_type },
                    _ => Item::InterfaceMethodRef { class, name_and_type },
                }
            }
'''))
add('attr-fn', (MOD, '''        let attribute = match name.as_ref() {
''', '''        let attribute = parse_attribute(
            &mut attr_decoder, constant_pool, depth, name_index, name.as_ref(), length as usize)?;
        attributes.push(attribute);

        // go on
        attr_decoder.remove_limit()?;
    }

    Ok(attributes)
}

/// Parses the contents of one attribute
fn parse_attribute(
    attr_decoder: &mut Decoder,
    constant_pool: &Pool,
    depth: usize,
    name_index: u16,
    name: &str,
    length: usize,
) -> Result<Attribute> {
        Ok(match name {
'''), (MOD, '''        };
        attributes.push(attribute);

        // go on
        attr_decoder.remove_limit()?;
    }

    Ok(attributes)
}''', '''        })
}'''), *[(MOD, '(&mut attr_decoder', '(attr_decoder')] * 0)
add('attr-if', (MOD, '''            "Deprecated" => Attribute::Deprecated,
''', ''), (MOD, '''            _ => {
                let bytes = attr_decoder''', '''            other if other == "Deprecated" => Attribute::Deprecated,

            _ => {
                let bytes = attr_decoder'''))
add('attr-str', (MOD, 'match name.as_ref() {', 'match &name[..] {'))
add('attr-unknown', (MOD, '''                let bytes = attr_decoder.read_bytes(length as usize)?;
                Attribute::Unknown(name_index, bytes.to_vec())
''', '''                let mut bytes = Vec::with_capacity(length as usize);
                bytes.extend_from_slice(attr_decoder.read_bytes(length as usize)?);
                Attribute::Unknown(name_index, bytes)
'''))
add('attr-unknown-map', (MOD, '''                let bytes = attr_decoder.read_bytes(length as usize)?;
                Attribute::Unknown(name_index, bytes.to_vec())
''', '''                attr_decoder
                    .read_bytes(length as usize)
                    .map(|bytes| Attribute::Unknown(name_index, Vec::from(bytes)))?
'''))
add('attr-close-first', (MOD, '''        attributes.push(attribute);

        // go on
        attr_decoder.remove_limit()?;
''', '''        // go on
        attr_decoder.remove_limit()?;

        attributes.push(attribute);
'''))
add('member-fn', (MOD, '''    let count = decoder.read_u16()?;
    let mut fields = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        let name = decoder.read_u16()?;
        let desc = decoder.read_u16()?;
        let attributes = parse_attributes(decoder, constant_pool, 0)?;

        fields.push(Field {
            access_flags,
            name,
            desc,
            attributes,
        })
    }

    Ok(fields)
''', '''    let count = decoder.read_u16()?;
    let mut fields = Vec::with_capacity(count as usize);
    for _ in 0..count {
        fields.push(parse_field(decoder, constant_pool)?);
    }

    Ok(fields)
}

/// Parses a single field
fn parse_field(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Field> {
    let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
    let (name, desc) = (decoder.read_u16()?, decoder.read_u16()?);

    Ok(Field {
        access_flags,
        name,
        desc,
        attributes: parse_attributes(decoder, constant_pool, 0)?,
    })
'''))
add('code-while', (COD, '''            // we have read all instructions
            if end == code_length {
                break;
            }

            code_location = end;
''', '''            code_location = end;

            // we have read all instructions
            if code_location >= code_length {
                break;
            }
'''))
add('code-offset', (COD, '''    Ok(((at as usize + decoder.cursor() - prev_cursor) as u32, insn))
''', '''    let read = decoder.cursor() - prev_cursor;
    Ok((at + read as u32, insn))
'''))
add('code-cursor', (COD, '''        let mut code_location = 0;
        loop {
            let (end, instruction) = parse_instruction(&mut code_decoder, code_location)?;
            instructions.insert(code_location, instruction);

            // we have read all instructions
            if end == code_length {
                break;
            }

            code_location = end;
        }
''', '''        let start = code_decoder.cursor();
        let mut done = false;
        while !done {
            let code_location = (code_decoder.cursor() - start) as u32;
            let (end, instruction) = parse_instruction(&mut code_decoder, code_location)?;
            instructions.insert(code_location, instruction);
            done = end == code_length;
        }
'''))
add('switch-count', (COD, '''            for _ in i64::from(low)..(i64::from(high) + 1) {
                offsets.push(decoder.read_i32()?);
            }
''', '''            let count = i64::from(high) - i64::from(low) + 1;
            for _ in 0..count {
                offsets.push(decoder.read_i32()?);
            }
'''))
add('switch-inclusive', (COD, '''            for _ in i64::from(low)..(i64::from(high) + 1) {
''', '''            for _ in i64::from(low)..=i64::from(high) {
'''))
add('switch-while', (COD, '''            for _ in i64::from(low)..(i64::from(high) + 1) {
                offsets.push(decoder.read_i32()?);
            }
''', '''            let mut key = i64::from(low);
            while key <= i64::from(high) {
                let offset = decoder.read_i32()?;
                offsets.push(offset);
                key += 1;
            }
'''))
add('pad-helper', (COD, '''        0xAA => {
            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;
''', '''        0xAA => {
            skip_padding(decoder, at)?;
'''), (COD, '''        0xAB => {
            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;
''', '''        0xAB => {
            skip_padding(decoder, at)?;
'''), (COD, '''/// Parses a single instruction and''', '''/// Skips the bytes up to the next multiple of four
fn skip_padding(decoder: &mut Decoder, at: u32) -> Result<()> {
    decoder.skip(3 - (at % 4) as usize)
}

/// Parses a single instruction and'''))
add('pad-mod', (COD, '''        0xAB => {
            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;
''', '''        0xAB => {
            // skip padding
            let padding = (4 - (at + 1) % 4) % 4;
            decoder.skip(padding as usize)?;
'''))
add('pad-loop', (COD, '''        0xAB => {
            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;
''', '''        0xAB => {
            // skip padding
            let mut next = at + 1;
            while next % 4 != 0 {
                decoder.skip(1)?;
                next += 1;
            }
'''))
add('wide-fn', (COD, '''        0xC4 => match decoder.read_u8()? {
            0x15 => ILoad(decoder.read_u16()?),
''', '''        0xC4 => match decoder.read_u8()? {
            0x15 => {
                let index = decoder.read_u16()?;
                ILoad(index)
            }
'''))
add('ldc-index', (COD, '0x12 => LDC(u16::from(decoder.read_u8()?)), // ldc', '0x12 => LDC(read_local_index(decoder)?),'),
    (COD, '0x15 => ILoad(u16::from(decoder.read_u8()?)),', '0x15 => ILoad(read_local_index(decoder)?),'),
    (COD, '''/// Parses a single instruction and''', '''/// Reads an index of one byte
fn read_local_index(decoder: &mut Decoder) -> Result<u16> {
    decoder.read_u8().map(u16::from)
}

/// Parses a single instruction and'''))
add('array-fn', (COD, '''        0xBC => NewArray(match decoder.read_u8()? {
            0x04 => ArrayType::Boolean,
            0x05 => ArrayType::Char,
            0x06 => ArrayType::Float,
            0x07 => ArrayType::Double,
            0x08 => ArrayType::Byte,
            0x09 => ArrayType::Short,
            0x0A => ArrayType::Int,
            0x0B => ArrayType::Long,

            _ => return Err(Error::InvalidInstruction { op_code: 0xBC, at }),
        }),
''', '''        0xBC => {
            let code = decoder.read_u8()?;
            match array_type(code) {
                Some(kind) => NewArray(kind),
                None => return Err(Error::InvalidInstruction { op_code, at }),
            }
        }
'''), (COD, '''/// Parses a single instruction and''', '''fn array_type(code: u8) -> Option<ArrayType> {
    Some(match code {
        4 => ArrayType::Boolean,
        5 => ArrayType::Char,
        6 => ArrayType::Float,
        7 => ArrayType::Double,
        8 => ArrayType::Byte,
        9 => ArrayType::Short,
        10 => ArrayType::Int,
        11 => ArrayType::Long,
        _ => return None,
    })
}

/// Parses a single instruction and'''))
add('exceptions-fn', (COD, '''    let exception_count = decoder.read_u16()?;
    let mut exceptions = Vec::with_capacity(exception_count as usize);
    for _ in 0..exception_count {
        let start = decoder.read_u16()?;
        let end = decoder.read_u16()?;
        let handler = decoder.read_u16()?;
        let catch_type = decoder.read_u16()?;
        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
    }
''', '''    let exceptions = parse_exception_table(decoder)?;
'''), (COD, '''/// Parses a single instruction and''', '''fn parse_exception_table(decoder: &mut Decoder) -> Result<Vec<Exception>> {
    let count = decoder.read_u16()? as usize;
    let mut exceptions = Vec::with_capacity(count);
    for _ in 0..count {
        exceptions.push(Exception {
            start: decoder.read_u16()?,
            end: decoder.read_u16()?,
            handler: decoder.read_u16()?,
            catch_type: decoder.read_u16()?,
        });
    }
    Ok(exceptions)
}

/// Parses a single instruction and'''))
add('frame-if', (MET, '''            0...63 => StackMapFrame::Same {
                offset_delta: u16::from(frame_type),
            },
            64...127 => StackMapFrame::Same1 {
''', '''            n if n < 64 => StackMapFrame::Same {
                offset_delta: u16::from(n),
            },
            _ if frame_type < 128 => StackMapFrame::Same1 {
'''))
add('frame-fn', (MET, '''                let local_count = decoder.read_u16()? as usize;
                let mut locals = Vec::with_capacity(local_count);
                for _ in 0..local_count {
                    locals.push(parse_verification_type(decoder)?);
                }

                let stack_size = decoder.read_u16()? as usize;
                let mut stack = Vec::with_capacity(stack_size);
                for _ in 0..stack_size {
                    stack.push(parse_verification_type(decoder)?);
                }
''', '''                let local_count = decoder.read_u16()? as usize;
                let locals = parse_verification_types(decoder, local_count)?;
                let stack_size = decoder.read_u16()? as usize;
                let stack = parse_verification_types(decoder, stack_size)?;
'''), (MET, '''                let dif = frame_type as usize - 251;
                let mut locals = Vec::with_capacity(dif);
                for _ in 0..dif {
                    locals.push(parse_verification_type(decoder)?);
                }
''', '''                let locals = parse_verification_types(decoder, usize::from(frame_type - 251))?;
'''), (MET, '''/// Parses a verification type.
''', '''fn parse_verification_types(decoder: &mut Decoder, count: usize) -> Result<Vec<VerificationType>> {
    let mut types = Vec::with_capacity(count);
    for _ in 0..count {
        types.push(parse_verification_type(decoder)?);
    }
    Ok(types)
}

/// Parses a verification type.
'''))
add('verif-ok', (MET, '''    match tag {
        0 => Ok(Top),
        1 => Ok(Integer),
        2 => Ok(Float),
        3 => Ok(Double),
        4 => Ok(Long),
        5 => Ok(Null),
        6 => Ok(UninitializedThis),
        7 => Ok(Object(decoder.read_u16()?)),
        8 => Ok(Uninitialized(decoder.read_u16()?)),

        _ => Err(Error::InvalidVerificationType(tag)),
    }
''', '''    let simple = [Top, Integer, Float, Double, Long, Null, UninitializedThis];
    let _ = simple.len();
    Ok(match tag {
        0 => Top,
        1 => Integer,
        2 => Float,
        3 => Double,
        4 => Long,
        5 => Null,
        6 => UninitializedThis,
        7 => Object(decoder.read_u16()?),
        8 => Uninitialized(decoder.read_u16()?),
        other => return Err(Error::InvalidVerificationType(other)),
    })
'''))
add('element-map', (ANN, '''        b'B' => Ok(ElementValue::Byte(decoder.read_u16()?)),
        b'S' => Ok(ElementValue::Short(decoder.read_u16()?)),
''', '''        b'B' => decoder.read_u16().map(ElementValue::Byte),
        b'S' => {
            let index = decoder.read_u16()?;
            Ok(ElementValue::Short(index))
        }
'''))
add('element-const', (ANN, '''    match tag {
        b'B' => Ok(ElementValue::Byte(decoder.read_u16()?)),
        b'S' => Ok(ElementValue::Short(decoder.read_u16()?)),
        b'C' => Ok(ElementValue::Char(decoder.read_u16()?)),
''', '''    match tag {
        b'B' | b'S' | b'C' => {
            let index = decoder.read_u16()?;
            if tag == b'B' {
                Ok(ElementValue::Byte(index))
            } else if tag == b'S' {
                Ok(ElementValue::Short(index))
            } else {
                Ok(ElementValue::Char(index))
            }
        }
'''))
add('element-array-fn', (ANN, '''            let count = decoder.read_u16()?;
            let mut element_values = Vec::with_capacity(count as usize);

            for _ in 0..count {
                element_values.push(parse_element_value(decoder, depth + 1)?);
            }

            Ok(ElementValue::Array(element_values))
''', '''            parse_element_values(decoder, depth + 1).map(ElementValue::Array)
'''), (ANN, '''/// Parses a type annotation
''', '''/// Reads the values of an array
fn parse_element_values(decoder: &mut Decoder, depth: usize) -> Result<Vec<ElementValue>> {
    let count = decoder.read_u16()?;
    let mut element_values = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let value = parse_element_value(decoder, depth)?;
        element_values.push(value);
    }
    Ok(element_values)
}

/// Parses a type annotation
'''))
add('pair-let', (ANN, '''        element_value_pairs.push((name_index, parse_element_value(decoder, depth)?));
''', '''        let value = parse_element_value(decoder, depth)?;
        element_value_pairs.push((name_index, value));
'''))
add('annotations-collect', (ANN, '''    let count = decoder.read_u16()?;
    let mut annotations = Vec::with_capacity(count as usize);
    for _ in 0..count {
        annotations.push(parse_annotation(decoder, 0)?);
    }
    Ok(annotations)
''', '''    let count = decoder.read_u16()?;
    (0..count).map(|_| parse_annotation(decoder, 0)).collect()
'''))
add('path-kind-fn', (ANN, '''        let path_kind = match decoder.read_u8()? {
            0x00 => TypePathKind::ArrayType,
            0x01 => TypePathKind::NestedType,
            0x02 => TypePathKind::WildcardType,
            0x03 => TypePathKind::Type,

            _ => return Err(Error::InvalidTypePath),
        };
''', '''        let path_kind = parse_path_kind(decoder.read_u8()?)?;
'''), (ANN, '''/// Parses the type path of a type annotation
''', '''fn parse_path_kind(kind: u8) -> Result<TypePathKind> {
    match kind {
        0 => Ok(TypePathKind::ArrayType),
        1 => Ok(TypePathKind::NestedType),
        2 => Ok(TypePathKind::WildcardType),
        3 => Ok(TypePathKind::Type),
        _ => Err(Error::InvalidTypePath),
    }
}

/// Parses the type path of a type annotation
'''))
add('magic-eq', (MOD, '''    if decoder.read_bytes(4)? != MAGIC {
        return Err(Error::NotAClass);
    }
''', '''    let magic = decoder.read_bytes(4)?;
    if magic == MAGIC {
    } else {
        return Err(Error::NotAClass);
    }
'''))
add('magic-u32', (MOD, '''    if decoder.read_bytes(4)? != MAGIC {
        return Err(Error::NotAClass);
    }
''', '''    if decoder.read_u32()? != 0xCAFE_BABE {
        return Err(Error::NotAClass);
    }
'''), (MOD, 'const MAGIC: &[u8] = &[0xCA, 0xFE, 0xBA, 0xBE];', '#[allow(dead_code)]\nconst MAGIC: &[u8] = &[0xCA, 0xFE, 0xBA, 0xBE];'))
add('class-inline', (MOD, '''    let fields = parse_fields(&mut decoder, &constant_pool)?;
    let methods = parse_methods(&mut decoder, &constant_pool)?;
    let attributes = parse_attributes(&mut decoder, &constant_pool, 0)?;

    let class = Class {
''', '''    let class = Class {
'''), (MOD, '''        interfaces,

        fields,
        methods,
        attributes,
    };
''', '''        interfaces,

        fields: parse_fields(&mut decoder, &constant_pool)?,
        methods: parse_methods(&mut decoder, &constant_pool)?,
        attributes: parse_attributes(&mut decoder, &constant_pool, 0)?,
    };
'''))
add('match-question', (MOD, '''    let minor_version = decoder.read_u16()?;
''', '''    let minor_version = match decoder.read_u16() {
        Ok(version) => version,
        Err(error) => return Err(error),
    };
'''))
add('and-then', (MET, '''        7 => Ok(Object(decoder.read_u16()?)),
''', '''        7 => decoder.read_u16().and_then(|index| Ok(Object(index))),
'''))
add('pool-get', (POOL, '''        if index != 0 && index < self.len() {
            if let Some(ref item) = self.by_index[index as usize - 1] {
                return Ok(item);
            }
        }

        Err(Error::InvalidCPItem(index))
''', '''        if index == 0 {
            return Err(Error::InvalidCPItem(index));
        }
        match self.by_index.get(index as usize - 1) {
            Some(&Some(ref item)) => Ok(item),
            _ => Err(Error::InvalidCPItem(index)),
        }
'''))
add('pool-get-checked', (POOL, '''        if index != 0 && index < self.len() {
            if let Some(ref item) = self.by_index[index as usize - 1] {
                return Ok(item);
            }
        }

        Err(Error::InvalidCPItem(index))
''', '''        (index as usize)
            .checked_sub(1)
            .and_then(|i| self.by_index.get(i))
            .and_then(|slot| slot.as_ref())
            .map(|item| &**item)
            .ok_or(Error::InvalidCPItem(index))
'''))
add('pool-utf8-match', (POOL, '''        if let Item::UTF8(ref s) = *self.get(index)? {
            Ok(s.clone())
        } else {
            Err(Error::InvalidCPItem(index))
        }
''', '''        match *self.get(index)? {
            Item::UTF8(ref s) => Ok(s.to_string()),
            _ => Err(Error::InvalidCPItem(index)),
        }
'''))
add('pool-append-width', (POOL, '''        let index = self.length;
        let length = match index.checked_add(if double { 2 } else { 1 }) {
            Some(length) => length,
            None => return Err(Error::CPTooLarge),
        };
''', '''        let index = self.length;
        let length = index
            .checked_add(if double { 2 } else { 1 })
            .ok_or(Error::CPTooLarge)?;
'''))
add('pool-push-split', (POOL, '''        let length = &mut self.length;

        let rc_item = Rc::new(item);
        let rc_item1 = Rc::clone(&rc_item);

        let by_index = &mut self.by_index;

        // check if in pool, if not insert it
        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
            by_index.push(Some(Rc::clone(&rc_item1)));

            let prev_length = *length;
            if double {
                // long and double take an additional space
                by_index.push(None);
                *length += 2;
            } else {
                *length += 1;
            }
            prev_length
        }))
''', '''        let rc_item = Rc::new(item);
        if let Some(&index) = self.by_entry.get(&rc_item) {
            return Ok(index);
        }

        let index = self.length;
        self.by_index.push(Some(Rc::clone(&rc_item)));
        if double {
            // long and double take an additional space
            self.by_index.push(None);
        }
        self.length += if double { 2 } else { 1 };
        self.by_entry.insert(rc_item, index);
        Ok(index)
'''))
add('pool-push-lookup-first', (POOL, '''        let double = item.is_double();

        // an item which is already in the pool takes no additional space
        let max_length = u16::max_value() - if double { 2 } else { 1 };
        if self.len() > max_length && !self.by_entry.contains_key(&item) {
            return Err(Error::CPTooLarge);
        }
''', '''        if let Some(index) = self.by_entry.get(&item) {
            return Ok(*index);
        }
        let double = item.is_double();
        let max_length = u16::max_value() - if double { 2 } else { 1 };
        if self.len() > max_length {
            return Err(Error::CPTooLarge);
        }
'''))
add('iter-loop', (POOL, '''        if let Some(rc_item) = self.iter.next() {
            self.index += 1;
            if let Some(ref item) = *rc_item {
                Some((self.index, item))
            } else {
                self.next()
            }
        } else {
            None
        }
''', '''        while let Some(rc_item) = self.iter.next() {
            self.index += 1;
            if let Some(ref item) = *rc_item {
                return Some((self.index, item));
            }
        }
        None
'''))
add('iter-for', (POOL, '''        if let Some(rc_item) = self.iter.next() {
            self.index += 1;
            if let Some(ref item) = *rc_item {
                Some((self.index, item))
            } else {
                self.next()
            }
        } else {
            None
        }
''', '''        loop {
            let slot = match self.iter.next() {
                Some(slot) => slot,
                None => return None,
            };
            self.index += 1;
            match *slot {
                Some(ref item) => return Some((self.index, item)),
                None => continue,
            }
        }
'''))
add('interfaces-extend', (MOD, '''    for _ in 0..interface_count {
        interfaces.push(decoder.read_u16()?);
    }
''', '''    for _ in 0..interface_count {
        let interface = decoder.read_u16()?;
        interfaces.extend(Some(interface));
    }
'''))
add('try-fold', (MET, EXC, '''    let count = decoder.read_u16()?;
    let exceptions = (0..count).try_fold(Vec::new(), |mut list, _| {
        list.push(decoder.read_u16()?);
        Ok(list)
    })?;
    Ok(Attribute::Exceptions(exceptions))
'''))
add('for-each-vec', (CLS, '''    for _ in 0..count {
        packages.push(decoder.read_u16()?);
    }
''', '''    for i in 0..count as usize {
        packages.insert(i, decoder.read_u16()?);
    }
'''))
add('vec-macro', (CLS, '''    let mut packages = Vec::with_capacity(count as usize);
    for _ in 0..count {
        packages.push(decoder.read_u16()?);
    }
''', '''    let mut packages = vec![];
    for _ in 0..count {
        packages.push(decoder.read_u16()?);
    }
'''))
add('vec-fill', (CLS, '''    let mut packages = Vec::with_capacity(count as usize);
    for _ in 0..count {
        packages.push(decoder.read_u16()?);
    }
''', '''    let mut packages = vec![0; count as usize];
    for package in packages.iter_mut() {
        *package = decoder.read_u16()?;
    }
'''))
add('bootstrap-struct', (CLS, '''let mut arguments = Vec::with_capacity(count as usize);''', '''let mut arguments: Vec<u16> = Vec::new();'''))
add('limit-closure', (DEC, '''        let end = *self.cursor + to;
        self.check(end)?;
        Ok(Decoder {
            bytes: self.bytes,
            cursor: self.cursor,
            limit: end,
        })
''', '''        let limit = *self.cursor + to;
        match self.check(limit) {
            Ok(()) => Ok(Decoder {
                bytes: self.bytes,
                cursor: self.cursor,
                limit,
            }),
            Err(e) => Err(e),
        }
'''))
add('remove-limit', (DEC, '''        if self.limit == *self.cursor {
            Ok(())
        } else {
            Err(Error::LimitExceeded)
        }
    }

    /// Skips''', '''        match self.limit - *self.cursor {
            0 => Ok(()),
            _ => Err(Error::LimitExceeded),
        }
    }

    /// Skips'''))



add('iter-match', (POOL, '        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }\n', """        match self.iter.next() {
            None => None,
            Some(slot) => {
                self.index += 1;
                match *slot {
                    Some(ref item) => Some((self.index, &**item)),
                    None => self.next(),
                }
            }
        }
"""))
add('iter-pos', (POOL, '        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }\n', """        let slot = self.iter.next()?;
        let index = self.index + 1;
        self.index = index;
        slot.as_ref().map(|item| (index, &**item)).or_else(|| self.next())
"""))
add('iter-enumerate', (POOL, '''pub struct PoolIter<'a> {
    iter: Iter<'a, Option<Rc<Item>>>,
    index: u16,
}
''', '''pub struct PoolIter<'a> {
    iter: ::std::iter::Enumerate<Iter<'a, Option<Rc<Item>>>>,
}
'''), (POOL, """            iter: self.by_index.iter(),
            index: 0,
""", """            iter: self.by_index.iter().enumerate(),
"""), (POOL, '        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }\n', """        while let Some((position, slot)) = self.iter.next() {
            if let Some(ref item) = *slot {
                return Some((position as u16 + 1, item));
            }
        }
        None
"""))
add('iter-get', (POOL, '''pub struct PoolIter<'a> {
    iter: Iter<'a, Option<Rc<Item>>>,
    index: u16,
}
''', '''pub struct PoolIter<'a> {
    pool: &'a Pool,
    index: u16,
}
'''), (POOL, """            iter: self.by_index.iter(),
            index: 0,
""", """            pool: self,
            index: 0,
"""), (POOL, """use std::slice::Iter;
""", ""), (POOL, '        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }\n', """        let pool = self.pool;
        while self.index + 1 < pool.len() {
            self.index += 1;
            if let Ok(item) = pool.get(self.index) {
                return Some((self.index, item));
            }
        }
        None
"""))
add('pool-push-entry', (POOL, "use std::collections::HashMap;", "use std::collections::HashMap;\nuse std::collections::hash_map::Entry;"),
    (POOL, '        let double = item.is_double();\n\n        // an item which is already in the pool takes no additional space\n        let max_length = u16::max_value() - if double { 2 } else { 1 };\n        if self.len() > max_length && !self.by_entry.contains_key(&item) {\n            return Err(Error::CPTooLarge);\n        }\n\n        let length = &mut self.length;\n\n        let rc_item = Rc::new(item);\n        let rc_item1 = Rc::clone(&rc_item);\n\n        let by_index = &mut self.by_index;\n\n        // check if in pool, if not insert it\n        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {\n            by_index.push(Some(Rc::clone(&rc_item1)));\n\n            let prev_length = *length;\n            if double {\n                // long and double take an additional space\n                by_index.push(None);\n                *length += 2;\n            } else {\n                *length += 1;\n            }\n            prev_length\n        }))\n', """        let wide = item.is_double();
        let next = self.length.checked_add(if wide { 2 } else { 1 });
        let rc_item = Rc::new(item);
        match self.by_entry.entry(Rc::clone(&rc_item)) {
            Entry::Occupied(entry) => Ok(*entry.get()),
            Entry::Vacant(entry) => {
                let index = self.length;
                self.length = match next {
                    Some(length) => length,
                    None => return Err(Error::CPTooLarge),
                };
                self.by_index.push(Some(rc_item));
                if wide {
                    self.by_index.push(None);
                }
                Ok(*entry.insert(index))
            }
        }
"""))
add('pool-push-via-append', (POOL, '        let double = item.is_double();\n\n        // an item which is already in the pool takes no additional space\n        let max_length = u16::max_value() - if double { 2 } else { 1 };\n        if self.len() > max_length && !self.by_entry.contains_key(&item) {\n            return Err(Error::CPTooLarge);\n        }\n\n        let length = &mut self.length;\n\n        let rc_item = Rc::new(item);\n        let rc_item1 = Rc::clone(&rc_item);\n\n        let by_index = &mut self.by_index;\n\n        // check if in pool, if not insert it\n        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {\n            by_index.push(Some(Rc::clone(&rc_item1)));\n\n            let prev_length = *length;\n            if double {\n                // long and double take an additional space\n                by_index.push(None);\n                *length += 2;\n            } else {\n                *length += 1;\n            }\n            prev_length\n        }))\n', """        match self.by_entry.get(&item) {
            Some(&index) => Ok(index),
            None => self.append(item),
        }
"""))
add('pool-push-const', (POOL, '        let double = item.is_double();\n\n        // an item which is already in the pool takes no additional space\n        let max_length = u16::max_value() - if double { 2 } else { 1 };\n        if self.len() > max_length && !self.by_entry.contains_key(&item) {\n            return Err(Error::CPTooLarge);\n        }\n\n        let length = &mut self.length;\n\n        let rc_item = Rc::new(item);\n        let rc_item1 = Rc::clone(&rc_item);\n\n        let by_index = &mut self.by_index;\n\n        // check if in pool, if not insert it\n        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {\n            by_index.push(Some(Rc::clone(&rc_item1)));\n\n            let prev_length = *length;\n            if double {\n                // long and double take an additional space\n                by_index.push(None);\n                *length += 2;\n            } else {\n                *length += 1;\n            }\n            prev_length\n        }))\n', """        const MAX: u16 = u16::max_value();
        if let Some(index) = self.by_entry.get(&item).cloned() {
            return Ok(index);
        }
        let slots = if item.is_double() { 2 } else { 1 };
        if MAX - self.length < slots {
            return Err(Error::CPTooLarge);
        }
        let index = self.length;
        let item = Rc::new(item);
        self.by_entry.insert(item.clone(), index);
        self.by_index.push(Some(item));
        for _ in 1..slots {
            self.by_index.push(None);
        }
        self.length = index + slots;
        Ok(index)
"""))
add('pool-push-resize', (POOL, """            // long and double take an additional space
            self.by_index.push(None);
        }
        self.by_entry.entry""", """            // long and double take an additional space
            self.by_index.extend(None::<Option<Rc<Item>>>);
            self.by_index.push(None);
        }
        self.by_entry.entry"""))
add('pool-append-insert', (POOL, '        let double = item.is_double();\n        let index = self.length;\n        let length = match index.checked_add(if double { 2 } else { 1 }) {\n            Some(length) => length,\n            None => return Err(Error::CPTooLarge),\n        };\n\n        let rc_item = Rc::new(item);\n        self.by_index.push(Some(Rc::clone(&rc_item)));\n        if double {\n            // long and double take an additional space\n            self.by_index.push(None);\n        }\n        self.by_entry.entry(rc_item).or_insert(index);\n        self.length = length;\n\n        Ok(index)\n', """        let index = self.length;
        let width = if item.is_double() { 2 } else { 1 };
        if u16::max_value() - index < width {
            return Err(Error::CPTooLarge);
        }
        self.length = index + width;
        let rc_item = Rc::new(item);
        if !self.by_entry.contains_key(&rc_item) {
            self.by_entry.insert(Rc::clone(&rc_item), index);
        }
        self.by_index.push(Some(rc_item));
        if width == 2 {
            self.by_index.push(None);
        }
        Ok(index)
"""))
add('pool-append-helper', (POOL, '        let double = item.is_double();\n        let index = self.length;\n        let length = match index.checked_add(if double { 2 } else { 1 }) {\n            Some(length) => length,\n            None => return Err(Error::CPTooLarge),\n        };\n\n        let rc_item = Rc::new(item);\n        self.by_index.push(Some(Rc::clone(&rc_item)));\n        if double {\n            // long and double take an additional space\n            self.by_index.push(None);\n        }\n        self.by_entry.entry(rc_item).or_insert(index);\n        self.length = length;\n\n        Ok(index)\n', """        let double = item.is_double();
        let index = self.length;
        let length = match index.checked_add(if double { 2 } else { 1 }) {
            Some(length) => length,
            None => return Err(Error::CPTooLarge),
        };
        let rc_item = Rc::new(item);
        self.store(Rc::clone(&rc_item), double);
        self.by_entry.entry(rc_item).or_insert(index);
        self.length = length;
        Ok(index)
    }

    fn store(&mut self, item: Rc<Item>, double: bool) {
        self.by_index.push(Some(item));
        if double {
            // long and double take an additional space
            self.by_index.push(None);
        }
"""))
add('pool-width', (POOL, """    /// Returns true if this item takes up two spaces, false otherwise.
    fn is_double(&self) -> bool {
        match *self {
            Item::Long(_) | Item::Double(_) => true,
            _ => false,
        }
    }
""", """    /// Returns true if this item takes up two spaces, false otherwise.
    fn is_double(&self) -> bool {
        self.width() == 2
    }

    fn width(&self) -> u16 {
        match self {
            Item::Long(..) | Item::Double(..) => 2,
            _ => 1,
        }
    }
"""))
add('pool-class-opt', (POOL, '        if let Item::Class(utf_index) = *self.get(index)? {\n            if utf_index == 0 {\n                Ok(None)\n            } else {\n                Ok(Some(self.get_utf8(utf_index)?))\n            }\n        } else {\n            Err(Error::InvalidCPItem(index))\n        }\n', """        match self.get(index)? {
            Item::Class(0) => Ok(None),
            Item::Class(name) => self.get_utf8(*name).map(Some),
            _ => Err(Error::InvalidCPItem(index)),
        }
"""))
add('pool-class-opt2', (POOL, '        if let Item::Class(utf_index) = *self.get(index)? {\n            if utf_index == 0 {\n                Ok(None)\n            } else {\n                Ok(Some(self.get_utf8(utf_index)?))\n            }\n        } else {\n            Err(Error::InvalidCPItem(index))\n        }\n', """        let name = match *self.get(index)? {
            Item::Class(name) => name,
            _ => return Err(Error::InvalidCPItem(index)),
        };
        match name {
            0 => Ok(None),
            _ => Ok(Some(self.get_utf8(name)?)),
        }
"""))
add('pool-len-field', (POOL, """        self.len() == 1
""", """        self.by_index.is_empty()
"""))
add('pool-len-vec', (POOL, """    pub fn len(&self) -> u16 {
        self.length
""", """    pub fn len(&self) -> u16 {
        self.by_index.len() as u16 + 1
"""))
add('pool-default', (POOL, """        Pool::new()
    }
""", """        Self::with_capacity(0)
    }
"""), (POOL, """    pub fn new() -> Self {
        Pool {
            length: 1,
            by_index: Vec::new(),
            by_entry: HashMap::new(),
        }
    }
""", """    pub fn new() -> Self {
        Pool {
            length: 1,
            by_index: vec![],
            by_entry: HashMap::default(),
        }
    }
"""))
add('item-eq-if', (POOL, """            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,
""", """            (Item::UTF8(str1), Item::UTF8(str2)) => str1.as_bytes() == str2.as_bytes(),
"""))
add('item-eq-bits', (POOL, """f1.to_bits() == f2.to_bits(),
            (&Item::Long""", """f1.to_bits().eq(&f2.to_bits()),
            (&Item::Long"""))
add('item-eq-disc', (POOL, """        match (self, other) {
            (&Item::UTF8""", """        if ::std::mem::discriminant(self) != ::std::mem::discriminant(other) {
            return false;
        }
        match (self, other) {
            (&Item::UTF8"""))
add('item-eq-and', (POOL, """ => class1 == class2 && nat1 == nat2,
""", """ => !(class1 != class2 || nat1 != nat2),
"""))
add('item-eq-tuple', (POOL, """ => name1 == name2 && desc1 == desc2,
""", """ => (name1, desc1) == (name2, desc2),
"""))
add('item-hash-tuple', (POOL, """            Item::NameAndType { name, desc } => {
                state.write_u8(12);
                name.hash(state);
                desc.hash(state);
            }
""", """            Item::NameAndType { name, desc } => {
                12u8.hash(state);
                (name, desc).hash(state);
            }
"""))
add('item-hash-disc', (POOL, """            Item::Module(ptr) => {
                state.write_u8(19);
                ptr.hash(state);
            }
            Item::Package(ptr) => {
                state.write_u8(20);
                ptr.hash(state);
            }
""", """            Item::Module(ptr) | Item::Package(ptr) => {
                state.write_u8(if let Item::Module(_) = *self { 19 } else { 20 });
                state.write_u16(ptr);
            }
"""))
add('pool-btree', (POOL, "use std::rc::Rc;\n", "use std::rc::Rc;\n"), (POOL, """    by_entry: HashMap<Rc<Item>, u16>,
""", """    by_entry: HashMap<Rc<Item>, u16>,
    wide: usize,
"""), (POOL, """            by_index: Vec::new(),
            by_entry: HashMap::new(),
""", """            by_index: Vec::new(),
            by_entry: HashMap::new(),
            wide: 0,
"""), (POOL, """            by_entry: HashMap::with_capacity(cap as usize),
""", """            by_entry: HashMap::with_capacity(cap as usize),
            wide: 0,
"""), (POOL, """            self.by_index.push(None);
        }
        self.by_entry.entry""", """            self.by_index.push(None);
            self.wide += 1;
        }
        self.by_entry.entry"""))


def main():
    import refac_types
    R.extend(refac_types.T)
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    for id, edits in R:
        texts = {}
        ok = True
        for f, a, b in edits:
            t = texts.get(f) or open('/repo/' + f).read()
            if id == 'attr-fn' and b.startswith('        })'):
                t = t.replace(a, b, 1)
                i = t.index('fn parse_attribute(')
                t = t[:i] + t[i:].replace('&mut attr_decoder', 'attr_decoder').replace('length as usize)', 'length)')
                texts[f] = t
                continue
            if t.count(a) < 1:
                print(id, 'no match', f, a[:50])
                ok = False
                break
            texts[f] = t.replace(a, b, 1)
        if not ok:
            continue
        out = ''
        for f, t in texts.items():
            o = open('/repo/' + f).read()
            out += ''.join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        open(os.path.join(d, id + '.patch'), 'w').write(out)


if __name__ == '__main__':
    main()
