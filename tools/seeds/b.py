SEEDS = [
    dict(id='C04-utf8-room', property='C04',
         needs='a source debug extension whose enclosing part is nearly at its end',
         breaks='a string reserves twice its declared length, which nothing in the file backs',
         edits=[('src/basic/parser/decode.rs', 'let mut out = String::with_capacity(length);',
                 'let mut out = String::with_capacity(length * 4);')],
         main=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = with_attr("SourceDebugExtension", &vec![b'x'; 300_000]);
    MAX.store(0, Ordering::Relaxed);
    let ok = jbcrs::basic::parse(&b).is_ok();
    let m = MAX.load(Ordering::Relaxed);
    check("accepted", ok);
    check("largest reservation", m <= 700_000);
}
'''),
    dict(id='C04-stack-size', property='C04',
         needs='a full frame whose stack has another size than its locals',
         breaks='space for the operand stack of a frame is reserved by the size of the whole table times the locals',
         edits=[('src/basic/parser/method.rs', 'let mut stack = Vec::with_capacity(stack_size);',
                 'let mut stack = Vec::with_capacity(stack_size * (1 + local_count));')],
         main=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut a = vec![0, 1, 255, 0, 0];
    u2(&mut a, 500);
    for _ in 0..500 { a.push(0) }
    u2(&mut a, 500);
    for _ in 0..500 { a.push(0) }
    let b = with_attr("StackMapTable", &a);
    MAX.store(0, Ordering::Relaxed);
    let ok = jbcrs::basic::parse(&b).is_ok();
    check("accepted", ok);
    check("largest reservation", MAX.load(Ordering::Relaxed) <= 100_000);
}
'''),
    dict(id='C05-cursor-only', property='C05',
         needs='a nested attribute that declares more bytes than its code attribute has left, with enough bytes after it',
         breaks='a nested limit is checked against the whole input: a nested attribute may reach past the attribute around it',
         edits=[('src/basic/parser/decode.rs', '''        let end = *self.cursor + to;
        self.check(end)?;
        Ok(Decoder {''', '''        let end = *self.cursor + to;
        if end > self.bytes.len() {
            return Err(Error::LimitExceeded);
        }
        Ok(Decoder {''')],
         main=r'''
fn main() {
    // a stack map nested in Code, one byte longer than what is left of the Code attribute
    let mut c = vec![];
    u2(&mut c, 1);
    u2(&mut c, 2);
    u4(&mut c, 1);
    c.push(0);
    u2(&mut c, 0);
    u2(&mut c, 1);
    u2(&mut c, 2);
    u4(&mut c, 3);
    c.extend_from_slice(&[0, 1]);
    let mut b = class(&[utf(b"Code"), utf(b"StackMapTable")], &[attr(1, &c)]);
    b.push(0x80);
    let s = show(&b);
    check("nested attribute past its end", s == "Err(LimitExceeded)");
}
'''),
    dict(id='C05-leftover', property='C05',
         needs='an attribute whose contents need fewer bytes than it declares',
         breaks='bytes left over at the end of an attribute are accepted',
         edits=[('src/basic/parser/decode.rs', 'if self.limit == *self.cursor {', 'if self.limit >= *self.cursor {')],
         main=r'''
fn main() {
    check("leftover", show(&with_attr("SourceFile", &[0, 1, 0])) == "Err(LimitExceeded)");
    check("exact", show(&with_attr("SourceFile", &[0, 1])).contains("SourceFile"));
}
'''),
    dict(id='C06-row-lost', property='C06',
         needs='a line number table that is cut off inside its last row',
         breaks='a table that ends early is returned shorter instead of failing',
         edits=[('src/basic/parser/method.rs', '''        let line_number = decoder.read_u16()?;
''', '''        let line_number = match decoder.read_u16() {
            Ok(line_number) => line_number,
            Err(_) => break,
        };
''')],
         main=r'''
fn main() {
    check("cut off", show(&with_attr("LineNumberTable", &[0, 1, 0, 5])) == "Err(LimitExceeded)");
}
'''),
    dict(id='C06-module-error', property='C06',
         needs='a module attribute that is cut off in its last list',
         breaks='an error in the last list of a module is turned into zeros',
         edits=[('src/basic/parser/class.rs', '            with.push(decoder.read_u16()?);',
                 '            with.push(decoder.read_u16().unwrap_or(0));')],
         main=r'''
fn main() {
    let mut m = vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 9, 0, 2, 0, 7];
    check("cut off", show(&with_attr("Module", &m)) == "Err(LimitExceeded)");
    m.extend_from_slice(&[0, 8]);
    check("complete", show(&with_attr("Module", &m)).contains("[7, 8]"));
}
'''),
    dict(id='C07-size-off', property='C07',
         needs='a pool whose last constant is a single-slot one that matters',
         breaks='one constant less is read than declared when the last is single-slot and the pool has more than 255 entries',
         edits=[('src/basic/parser/mod.rs', '    while index < size {', '    while u32::from(index) + u32::from(index >> 15) < u32::from(size) {')],
         main=r'''
fn main() {
    let mut cs = vec![];
    for _ in 0..32766 { cs.push(vec![3u8, 0, 0, 0, 1]); }
    cs.push(utf(b"y"));
    cs.push(utf(b"x"));
    let b = class(&cs, &[]);
    check("accepted", !show(&b).starts_with("Err"));
    let r = jbcrs::basic::parse(&b).unwrap();
    check("all there", r.0.len() == 32769 && r.0.get_utf8(32768).is_ok());
}
'''),
    dict(id='C08-module-package', property='C08',
         needs='a pool with a package constant', breaks='package constants are decoded as module constants',
         edits=[('src/basic/parser/mod.rs', '20 => Item::Package(decoder.read_u16()?),', '20 => Item::Module(decoder.read_u16()?),')],
         main=r'''
fn main() {
    let b = class(&[vec![20, 0, 2], utf(b"p")], &[]);
    let r = jbcrs::basic::parse(&b).unwrap();
    check("package", format!("{:?}", r.0.get(1).unwrap()).starts_with("Package"));
}
'''),
    dict(id='C08-handle-index', property='C08',
         needs='a method handle with an invalid kind that is not the first constant',
         breaks='the error carries the kind instead of the index of the entry',
         edits=[('src/basic/parser/mod.rs', '''                let kind = match decoder.read_u8()? {
                    1 =>''', '''                let tag = decoder.read_u8()?;
                let kind = match tag {
                    0 => return Err(Error::InvalidCPItem(u16::from(tag))),
                    1 =>''')],
         main=r'''
fn main() {
    let b = class(&[utf(b"p"), vec![15, 0, 0, 1]], &[]);
    check("index of the entry", show(&b) == "Err(InvalidCPItem(2))");
}
'''),
    dict(id='C09-three-byte-lead', property='C09',
         needs='a three-byte sequence with the highest lead byte 0xEF and a middle byte above 0x9F',
         breaks='three-byte sequences lose a bit of the middle byte',
         edits=[('src/basic/parser/decode.rs', '((r1 & 0x0F) << 12) + ((r2 & 0x3F) << 6) + (r3 & 0x3F)',
                 '((r1 & 0x0F) << 12) | ((r2 & 0x1F) << 6) | (r3 & 0x3F)')],
         main=r'''
fn main() {
    let b = class(&[utf("\u{FFE5}".as_bytes())], &[]);
    let r = jbcrs::basic::parse(&b).unwrap();
    check("character", format!("{:?}", r.0.get_utf8(1).unwrap()).contains('\u{FFE5}'));
}
'''),
    dict(id='C09-surrogate-range', property='C09',
         needs='a surrogate pair whose high surrogate ends in the range from DBC0',
         breaks='high surrogates of the last planes are not taken as surrogates',
         edits=[('src/basic/parser/decode.rs', 'if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {',
                 'if r1 == 0xED && r2 >= 0xA0 && r2 < 0xAF {')],
         main=r'''
fn main() {
    let b = class(&[utf(&[0xED, 0xAF, 0x80, 0xED, 0xB0, 0x80])], &[]);
    check("plane 16", !show(&b).starts_with("Err"));
}
'''),
    dict(id='C10-super-this', property='C10',
         needs='a class with a super class other than itself', breaks='class and super class are swapped',
         edits=[('src/basic/parser/mod.rs', '''    let name = decoder.read_u16()?;
    let super_name = decoder.read_u16()?;
''', '''    let super_name = decoder.read_u16()?;
    let name = decoder.read_u16()?;
''')],
         main=r'''
fn main() {
    let s = show(&class(&[utf(b"x")], &[]));
    check("name", s.contains(" name: 1, super_name: 0"));
}
'''),
    dict(id='C10-method-order', property='C10',
         needs='a class with more than one method', breaks='methods come in reverse order',
         edits=[('src/basic/parser/mod.rs', '        fields.push(Method {\n            access_flags,\n            name,\n            desc,\n            attributes,\n        })',
                 '        fields.insert(0, Method {\n            access_flags,\n            name,\n            desc,\n            attributes,\n        })')],
         main=r'''
fn main() {
    let mut b = class(&[utf(b"x")], &[]);
    let n = b.len();
    b.truncate(n - 4);
    u2(&mut b, 2);
    for v in &[1, 11, 12, 0, 2, 21, 22, 0, 0] { u2(&mut b, *v) }
    let s = show(&b);
    check("order", s.find("name: 11").unwrap() < s.find("name: 21").unwrap());
}
'''),
    dict(id='C11-case', property='C11',
         needs='an attribute with a name that only differs from a known one in length',
         breaks='attributes whose name merely starts with a known one are taken for it',
         edits=[('src/basic/parser/mod.rs', '"Synthetic" => Attribute::Synthetic,',
                 '"Synthetic" | "Synthetics" => Attribute::Synthetic,')],
         main=r'''
fn main() {
    check("unknown name", show(&with_attr("Synthetics", &[])).contains("Unknown"));
    check("known name", !show(&with_attr("Synthetic", &[])).contains("Unknown"));
}
'''),
    dict(id='C11-visible', property='C11',
         needs='invisible parameter annotations', breaks='they are returned as visible ones',
         edits=[('src/basic/parser/mod.rs', 'Attribute::RuntimeInvisibleParameterAnnotations(annotations)',
                 'Attribute::RuntimeVisibleParameterAnnotations(annotations)')],
         main=r'''
fn main() {
    check("variant", show(&with_attr("RuntimeInvisibleParameterAnnotations", &[0])).contains("RuntimeInvisible"));
}
'''),
    dict(id='C12-provides-order', property='C12',
         needs='a module that provides services', breaks='the implementations of a provided service lose their order',
         edits=[('src/basic/parser/class.rs', '            with.push(decoder.read_u16()?);', '            with.insert(0, decoder.read_u16()?);')],
         main=r'''
fn main() {
    let b = with_attr("Module", &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 9, 0, 2, 0, 7, 0, 8]);
    let s = show(&b);
    check("order", s.contains("[7, 8]"));
}
'''),
    dict(id='C12-local-type', property='C12',
         needs='a local variable type table', breaks='name and signature of a row are swapped',
         edits=[('src/basic/parser/method.rs', '''        let name = decoder.read_u16()?;
        let signature = decoder.read_u16()?;
''', '''        let signature = decoder.read_u16()?;
        let name = decoder.read_u16()?;
''')],
         main=r'''
fn main() {
    let s = show(&with_attr("LocalVariableTypeTable", &[0, 1, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5]));
    check("row", s.contains("name: 3, signature: 4"));
}
'''),
    dict(id='C13-bound-order', property='C13',
         needs='a type annotation on a bound of a type parameter of a method',
         breaks='parameter and bound index are read in the wrong order',
         edits=[('src/basic/parser/annotation.rs', '''        0x12 => TypeParameterBoundMethod {
            type_parameter: decoder.read_u8()?,
            bound_index: decoder.read_u8()?,
''', '''        0x12 => TypeParameterBoundMethod {
            bound_index: decoder.read_u8()?,
            type_parameter: decoder.read_u8()?,
''')],
         main=r'''
fn main() {
    let s = show(&with_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x12, 3, 4, 0, 0, 1, 0, 0]));
    check("order", s.contains("type_parameter: 3, bound_index: 4"));
}
'''),
    dict(id='C13-path-kind', property='C13',
         needs='a type path with an undefined kind', breaks='every kind from 3 on is taken for a type argument',
         edits=[('src/basic/parser/annotation.rs', '''            0x03 => TypePathKind::Type,

            _ => return Err(Error::InvalidTypePath),''', '''            kind if kind > 0x02 && kind & 0x80 == 0 => TypePathKind::Type,

            _ => return Err(Error::InvalidTypePath),''')],
         main=r'''
fn main() {
    let s = show(&with_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x13, 1, 4, 0, 0, 1, 0, 0]));
    check("undefined kind", s == "Err(InvalidTypePath)");
}
'''),
    dict(id='C14-chop', property='C14',
         needs='a chop frame of two locals', breaks='the number of chopped locals is counted from the wrong end',
         edits=[('src/basic/parser/method.rs', 'count: 251 - frame_type,', 'count: frame_type - 247,')],
         main=r'''
fn main() {
    let s = show(&with_attr("StackMapTable", &[0, 1, 250, 0, 0]));
    check("chopped", s.contains("count: 1"));
}
'''),
    dict(id='C14-reserved', property='C14',
         needs='a frame of the reserved type 246', breaks='a reserved frame type is taken for an extended one',
         edits=[('src/basic/parser/method.rs', '''            247 => StackMapFrame::Same1 {''', '''            246...247 => StackMapFrame::Same1 {''')],
         main=r'''
fn main() {
    let s = show(&with_attr("StackMapTable", &[0, 1, 246, 0, 0, 1]));
    check("reserved", s == "Err(ReservedStackMapFrame(246))");
}
'''),
    dict(id='C15-lookup-pad', property='C15',
         needs='a lookupswitch at an offset that is 3 more than a multiple of four',
         breaks='four bytes are skipped where none is to be',
         edits=[('src/basic/parser/code.rs', '''            decoder.skip(3 - (at & 3) as usize)?;
            let default = decoder.read_i32()?;

            let count''', '''            decoder.skip(4 - ((at + 1) & 3) as usize)?;
            let default = decoder.read_i32()?;

            let count''')],
         main=r'''
fn main() {
    for pad in 0..4 {
        let mut c = vec![0; 3 - pad];
        c.push(0xAB);
        for _ in 0..(8 - c.len()) % 4 { c.push(0) }
        c.extend_from_slice(&[0, 0, 0, 5, 0, 0, 0, 0]);
        let s = show(&with_code(&c));
        check("aligned", s.contains("LookupSwitch { default: 5"));
    }
}
'''),
    dict(id='C15-wide-iinc', property='C15',
         needs='a wide iinc with an amount that does not fit a byte', breaks='the amount is cut to a byte',
         edits=[('src/basic/parser/code.rs', '''                let value = decoder.read_i16()?;
                IInc(index, value)''', '''                let value = decoder.read_i16()?;
                IInc(index, i16::from(value as i8))''')],
         main=r'''
fn main() {
    let s = show(&with_code(&[0xC4, 0x84, 0, 1, 1, 0]));
    check("amount", s.contains("IInc(1, 256)"));
}
'''),
    dict(id='C16-offset-origin', property='C16',
         needs='code whose first instruction is a wide one', breaks='the offset of instructions after a long one drifts',
         edits=[('src/basic/parser/code.rs', '            code_location = end;', '            code_location = end - (end >> 15);')],
         main=r'''
fn main() {
    let mut c = vec![0; 40000];
    c.push(0xB1);
    let b = with_code(&c);
    let s = show(&b);
    check("offset of the return", s.contains("40000: Return"));
}
'''),
    dict(id='C16-exception-row', property='C16',
         needs='an exception table', breaks='the handler and the catch type of a row are swapped',
         edits=[('src/basic/parser/code.rs', '''        let handler = decoder.read_u16()?;
        let catch_type = decoder.read_u16()?;
''', '''        let catch_type = decoder.read_u16()?;
        let handler = decoder.read_u16()?;
''')],
         main=r'''
fn main() {
    let b = with_attr("Code", &[0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 2, 0, 3, 0, 4, 0, 0]);
    check("row", show(&b).contains("handler: 3, catch_type: 4"));
}
'''),
    dict(id='C17-strict', property='C17',
         needs='nothing but the constants', breaks='a flag has the value of another one',
         edits=[('src/basic/tree.rs', 'const STRICT       = 0b0000_1000_0000_0000;', 'const STRICT       = 0b0000_0100_0000_0000;')],
         main=r'''
fn main() {
    use jbcrs::basic::AccessFlags;
    check("strict", AccessFlags::STRICT.bits() == 0x800);
    let s = show(&with_attr("MethodParameters", &[1, 0, 1, 0x08, 0x00]));
    check("kept", s.contains("STRICT"));
}
'''),
    dict(id='C17-masked', property='C17',
         needs='an inner class with one of the flags above 0x0FFF', breaks='flags of inner classes are cut to twelve bits',
         edits=[('src/basic/parser/class.rs', 'AccessFlags::from_bits_truncate(decoder.read_u16()?);\n        inner_classes',
                 'AccessFlags::from_bits_truncate(decoder.read_u16()? & 0x2FFF);\n        inner_classes')],
         main=r'''
fn main() {
    let s = show(&with_attr("InnerClasses", &[0, 1, 0, 1, 0, 2, 0, 3, 0x40, 0]));
    check("enum", s.contains("ENUM"));
}
'''),
    dict(id='C18-float-nan', property='C18',
         needs='a float constant that is a NaN with another payload than the usual one',
         breaks='NaNs lose their payload',
         edits=[('src/basic/parser/decode.rs', 'Ok(f32::from_bits(self.read_u32()?))',
                 '{\n            let value = f32::from_bits(self.read_u32()?);\n            Ok(if value.is_nan() { ::std::f32::NAN } else { value })\n        }')],
         main=r'''
use jbcrs::basic::Item;
fn main() {
    let b = class(&[vec![4, 0x7F, 0x80, 0, 1]], &[]);
    let r = jbcrs::basic::parse(&b).unwrap();
    match *r.0.get(1).unwrap() {
        Item::Float(f) => check("bits", f.to_bits() == 0x7F80_0001),
        _ => check("float", false),
    }
}
'''),
    dict(id='C18-jsr', property='C18',
         needs='a backward jsr', breaks='its 16-bit offset is read without its sign',
         edits=[('src/basic/parser/code.rs', '0xA8 => JSR(i32::from(decoder.read_i16()?)),', '0xA8 => JSR(i32::from(decoder.read_u16()?)),')],
         main=r'''
fn main() {
    check("negative", show(&with_code(&[0, 0xA8, 0xFF, 0xFF])).contains("JSR(-1)"));
}
'''),
]
