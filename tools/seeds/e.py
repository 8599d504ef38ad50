# planted bugs that go through the standard library
POOL = 'src/basic/constpool.rs'
TYPES = 'src/types.rs'
MOD = 'src/basic/parser/mod.rs'
SEEDS = [
    dict(id='C10-interfaces-dedup', property='C10',
         needs='a class that names the same interface twice in a row',
         breaks='repeated interfaces are dropped',
         edits=[(MOD, '''        interfaces.push(decoder.read_u16()?);
    }
''', '''        interfaces.push(decoder.read_u16()?);
    }
    interfaces.dedup();
''')],
         main=r'''
fn main() {
    let b = {
        let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
        u2(&mut o, 2);
        o.extend_from_slice(&utf(b"A"));
        for v in &[0x21, 1, 0, 3, 5, 5, 6, 0, 0, 0] { u2(&mut o, *v) }
        o
    };
    let c = jbcrs::basic::parse(&b).ok().unwrap().1;
    check("all", c.interfaces == vec![5, 5, 6]);
}
'''),
    dict(id='C12-exception-order', property='C12',
         needs='an exception table whose rows are not ordered by their start',
         breaks='the rows are sorted, although the first one that matches is the one that counts',
         edits=[('src/basic/parser/code.rs', '''        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
    }
''', '''        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
    }
    exceptions.sort_by_key(|row: &Exception| row.start);
''')],
         main=r'''
fn main() {
    let b = with_attr("Code", &[0, 1, 0, 1, 0, 0, 0, 4, 0, 0, 0, 0, 0, 2,
                                0, 2, 0, 3, 0, 0, 0, 4, 0, 0, 0, 1, 0, 3, 0, 5, 0, 0]);
    let s = show(&b);
    let (i, j) = (s.find("catch_type: 4"), s.find("catch_type: 5"));
    check("both", i.is_some() && j.is_some());
    check("order", i < j);
}
'''),
    dict(id='C12-packages-set', property='C12',
         needs='a list of packages that is not ascending or repeats one',
         breaks='the packages of a module come out sorted and without repetitions',
         edits=[('src/basic/parser/class.rs', '    Ok(Attribute::ModulePackages(packages))',
                 '    let sorted: ::std::collections::BTreeSet<u16> = packages.into_iter().collect();\n'
                 '    Ok(Attribute::ModulePackages(sorted.into_iter().collect()))')],
         main=r'''
fn main() {
    let s = show(&with_attr("ModulePackages", &[0, 3, 0, 9, 0, 4, 0, 4]));
    check("as written", s.contains("ModulePackages([9, 4, 4])"));
}
'''),
    dict(id='C11-before-dot', property='C11',
         needs='an attribute whose name is a known one, a dot and more',
         breaks='attributes of other makers are taken for standard ones',
         edits=[(MOD, 'let attribute = match name.as_ref() {', "let attribute = match name.split('.').next().unwrap_or(\"\") {")],
         main=r'''
fn main() {
    let s = show(&with_attr("Synthetic.extra", &[]));
    check("unknown", s.contains("Unknown"));
    check("known", show(&with_attr("Synthetic", &[])).contains("Synthetic"));
}
'''),
    dict(id='C25-dots', property='C25',
         needs='a class name with a dot',
         breaks='dots in the name of a class become slashes',
         edits=[('src/types.rs', 'return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));',
                 'return Ok(TypeDescriptor::new(dimensions, Type::Reference(name.replace(\'.\', "/"))));')],
         main=r'''
use jbcrs::{Type, TypeDescriptor};
fn main() {
    let d: Result<TypeDescriptor, _> = "La.b;".parse();
    check("name", d.ok() == Some(TypeDescriptor::new(0, Type::Reference("a.b".to_string()))));
}
'''),
    dict(id='C22-any-case', property='C22',
         needs='two strings that differ only in case',
         breaks='strings are equal whatever their case',
         edits=[('src/basic/constpool.rs', '(&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,',
                 '(&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => str1.eq_ignore_ascii_case(str2),')],
         main=r'''
use jbcrs::basic::Item;
fn main() {
    let i = |s: &str| Item::UTF8(s.to_string());
    check("same", i("ab") == i("ab"));
    check("case", i("ab") != i("aB"));
}
'''),
    dict(id='C18-minus-zero', property='C18',
         needs='a double constant that is minus zero',
         breaks='minus zero becomes zero',
         edits=[('src/basic/parser/decode.rs', 'Ok(f64::from_bits(self.read_u64()?))',
                 'Ok(f64::from_bits(self.read_u64()?) + 0.0)')],
         main=r'''
use jbcrs::basic::Item;
fn main() {
    let b = class_n(&[vec![6, 0x80, 0, 0, 0, 0, 0, 0, 0]], 2, &[]);
    let r = jbcrs::basic::parse(&b).ok().unwrap();
    match *r.0.get(1).ok().unwrap() {
        Item::Double(f) => check("bits", f.to_bits() == 1 << 63),
        _ => check("double", false),
    }
}
'''),
    dict(id='C10-minor-swapped', property='C10',
         needs='a minor version that is not the same read backwards',
         breaks='the bytes of the minor version are swapped',
         edits=[(MOD, 'let minor_version = decoder.read_u16()?;', 'let minor_version = decoder.read_u16()?.swap_bytes();')],
         main=r'''
fn main() {
    let mut b = class(&[], &[]);
    b[5] = 3;
    check("minor", jbcrs::basic::parse(&b).ok().unwrap().1.minor_version == 3);
}
'''),
    dict(id='C15-sorted-keys', property='C15',
         needs='a lookupswitch whose keys are not ascending',
         breaks='the cases that are out of order are dropped',
         edits=[('src/basic/parser/code.rs', '                offsets.insert(key, offset);\n',
                 '''                if offsets.keys().next_back().map_or(true, |k| *k < key) {
                    offsets.insert(key, offset);
                }
''')],
         main=r'''
fn main() {
    let mut c = vec![0xAB, 0, 0, 0];
    for v in &[0u32, 2, 7, 1, 3, 2] { u4(&mut c, *v) }
    let s = show(&with_code(&c));
    check("seven", s.contains("7: 1"));
    check("three", s.contains("3: 2"));
}
'''),
    dict(id='C19-last-push', property='C19',
         needs='pushing two constants, then the first one twice again',
         breaks='the constant pushed last is remembered, but with the index that the next one gets',
         edits=[(POOL, "    by_entry: HashMap<Rc<Item>, u16>,\n}", "    by_entry: HashMap<Rc<Item>, u16>,\n    last: Option<(Rc<Item>, u16)>,\n}"),
                (POOL, "            length: 1,\n            by_index: Vec::new(),\n", "            length: 1,\n            last: None,\n            by_index: Vec::new(),\n"),
                (POOL, "            length: 1,\n            by_index: Vec::with_capacity(cap as usize),\n", "            length: 1,\n            last: None,\n            by_index: Vec::with_capacity(cap as usize),\n"),
                (POOL, "        let double = item.is_double();\n\n        // an item", """        // often the same item is pushed several times in a row
        if let Some((ref last, index)) = self.last {
            if **last == item {
                return Ok(index);
            }
        }

        let double = item.is_double();

        // an item"""),
                (POOL, "        let by_index = &mut self.by_index;\n\n        // check", "        let by_index = &mut self.by_index;\n        self.last = Some((Rc::clone(&rc_item), *length));\n\n        // check")],
         main=r'''
use jbcrs::basic::{Item, Pool};
fn main() {
    let mut p = Pool::new();
    let mut put = |i: i32| p.push(Item::Integer(i)).ok().unwrap();
    let (a, b) = (put(4), put(5));
    check("again", put(5) == b);
    check("first", put(4) == a);
    check("first again", put(4) == a);
}
'''),
    dict(id='C21-nth', property='C21',
         needs='skipping over a long or double with nth or skip',
         breaks='skipping steps over unusable slots as if they were constants',
         edits=[(POOL, """    type Item = (u16, &'a Item);
""", """    type Item = (u16, &'a Item);

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // no need to look at the items in between
        for _ in 0..n {
            self.iter.next()?;
            self.index += 1;
        }
        self.next()
    }
""")],
         main=r'''
use jbcrs::basic::{Item, Pool};
fn main() {
    let mut p = Pool::new();
    p.push(Item::Long(4)).ok().unwrap();
    p.push(Item::Integer(5)).ok().unwrap();
    p.push(Item::Integer(6)).ok().unwrap();
    check("first", p.iter().nth(0).unwrap().0 == 1);
    check("third", p.iter().nth(2).unwrap().0 == 4);
}
'''),
    dict(id='C32-class-names', property='C32',
         needs='comparing two class types of different names',
         breaks='comparing types by their letter only',
         edits=[(TYPES, """#[derive(Eq, PartialEq, Debug)]
pub enum Type {""", """#[derive(Eq, Debug)]
pub enum Type {"""),
                (TYPES, """/// A `TypeDescriptor` is either""", """impl PartialEq for Type {
    /// Two types are the same, if the letters for them are
    fn eq(&self, other: &Type) -> bool {
        ::std::mem::discriminant(self) == ::std::mem::discriminant(other)
    }
}

/// A `TypeDescriptor` is either""")],
         main=r'''
use jbcrs::TypeDescriptor;
fn main() {
    let of = |s: &str| s.parse::<TypeDescriptor>().unwrap();
    check("same", of("[La;") == of("[La;"));
    check("different kinds", of("[La;") != of("[I"));
    check("different names", of("[La;") != of("[Lb;"));
}
'''),
    dict(id='C32-more-parameters', property='C32',
         needs='two methods of which one has further parameters',
         breaks='comparing the parameters both methods have',
         edits=[(TYPES, """#[derive(Eq, PartialEq, Debug)]
pub struct MethodDescriptor {""", """#[derive(Eq, Debug)]
pub struct MethodDescriptor {"""),
                (TYPES, """impl FromStr for MethodDescriptor {""", """impl PartialEq for MethodDescriptor {
    fn eq(&self, other: &MethodDescriptor) -> bool {
        self.return_type == other.return_type
            && self.params.iter().zip(other.params.iter()).all(|(a, b)| a == b)
    }
}

impl FromStr for MethodDescriptor {""")],
         main=r'''
use jbcrs::MethodDescriptor;
fn main() {
    let of = |s: &str| s.parse::<MethodDescriptor>().unwrap();
    check("same", of("(IJ)V") == of("(IJ)V"));
    check("other parameters", of("(IJ)V") != of("(IF)V"));
    check("other return type", of("(IJ)V") != of("(IJ)J"));
    check("more parameters", of("(IJ)V") != of("(IJJ)V"));
}
'''),
    dict(id='C09-ascii-zero', property='C09',
         needs='a string of ASCII characters with a zero byte among them',
         breaks='a shortcut for strings of ASCII that forgets that the zero byte is none of them',
         edits=[('src/basic/parser/decode.rs', """        let mut out = String::with_capacity(length);
""", """        {
            // most strings are plain ASCII
            let rest = &self.bytes[*self.cursor..self.limit];
            if rest.len() >= length && rest[..length].is_ascii() {
                let text = rest[..length].iter().map(|b| *b as char).collect();
                *self.cursor += length;
                return Ok(text);
            }
        }

        let mut out = String::with_capacity(length);
""")],
         main=r'''
fn main() {
    check("ascii", !show(&class(&[utf(b"abc")], &[])).starts_with("Err"));
    check("zero", show(&class(&[utf(b"a\0c")], &[])).starts_with("Err"));
}
'''),
    dict(id='C20-no-room', property='C20',
         needs='a pool made with a capacity of zero',
         breaks='a pool without room has no length either',
         edits=[(POOL, """        Pool {
            length: 1,
            by_index: Vec::with_capacity(cap as usize),""", """        Pool {
            length: cap.min(1),
            by_index: Vec::with_capacity(cap as usize),""")],
         main=r'''
use jbcrs::basic::Pool;
fn main() {
    check("some room", Pool::with_capacity(5).len() == 1);
    check("no room", Pool::with_capacity(0).len() == 1);
}
'''),
]
