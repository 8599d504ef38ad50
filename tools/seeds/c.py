# planted bugs of the constant pool
POOL = 'src/basic/constpool.rs'
HEAD = r'''
use jbcrs::basic::{Item, Pool, ReferenceKind};
fn name(s: &str) -> Item { Item::UTF8(s.to_string()) }
#[allow(dead_code)]
fn kind(k: ReferenceKind, index: u16) -> Item { Item::MethodHandle { kind: k, index } }
#[allow(dead_code)]
fn put(p: &mut Pool, i: Item) -> u16 { p.push(i).ok().unwrap() }
#[allow(dead_code)]
fn is(p: &Pool, i: u16, x: Item) -> bool { match p.get(i) { Ok(y) => *y == x, Err(_) => false } }
'''
SEEDS = [
    dict(id='C19-capacity-filled', property='C19',
         needs='a pool made with room for some constants, and a constant pushed on it',
         breaks='the room of a new pool is already filled with unusable slots, so that indices find nothing',
         edits=[(POOL, '            by_index: Vec::with_capacity(cap as usize),',
                 '            by_index: vec![None; cap as usize],')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::with_capacity(0);
    let i = put(&mut p, name("a"));
    check("no room", is(&p, i, name("a")));
    let mut p = Pool::with_capacity(4);
    let i = put(&mut p, name("a"));
    check("some room", is(&p, i, name("a")));
    let j = put(&mut p, Item::Long(4));
    check("second", is(&p, j, Item::Long(4)) && is(&p, i, name("a")));
}
'''),
    dict(id='C19-long-strings', property='C19',
         needs='two equal strings of more than 4096 bytes',
         breaks='a long string is stored again instead of giving the index it already has',
         edits=[(POOL, '''        let length = &mut self.length;

        let rc_item = Rc::new(item);
''', '''        let huge = match item {
            // hashing takes longer than it saves
            Item::UTF8(ref s) => s.len() > 4096,
            _ => false,
        };
        if huge {
            return self.append(item);
        }

        let length = &mut self.length;

        let rc_item = Rc::new(item);
''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let long: String = std::iter::repeat('x').take(5000).collect();
    let i = put(&mut p, name(&long));
    let j = put(&mut p, name("x"));
    check("short", put(&mut p, name("x")) == j);
    let n = p.len();
    check("long", put(&mut p, name(&long)) == i && p.len() == n);
}
'''),
    dict(id='C19-handle-index', property='C19',
         needs='two method handles of the same kind for different members',
         breaks='pushing the second method handle gives the index of the first',
         edits=[(POOL, ') => kind1 == kind2 && index1 == index2,', ''') => match *kind1 {
                // the member of a constructor is unambiguous
                ReferenceKind::NewInvokeSpecial => kind1 == kind2,
                _ => kind1 == kind2 && index1 == index2,
            },'''),
                (POOL, '''                kind.hash(state);
                index.hash(state);''', '''                kind.hash(state);
                if *kind != ReferenceKind::NewInvokeSpecial {
                    index.hash(state);
                }''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let a = put(&mut p, kind(ReferenceKind::InvokeStatic, 4));
    let b = put(&mut p, kind(ReferenceKind::InvokeStatic, 5));
    let c = put(&mut p, kind(ReferenceKind::NewInvokeSpecial, 4));
    let d = put(&mut p, kind(ReferenceKind::NewInvokeSpecial, 5));
    check("different", a != b && c != d);
    match p.get(d) {
        Ok(&Item::MethodHandle { index, .. }) => check("member", index == 5),
        _ => check("found", false),
    }
}
'''),
    dict(id='C20-empty', property='C20',
         needs='a pool whose only constant takes one slot',
         breaks='a pool with one constant claims to be empty',
         edits=[(POOL, '        self.len() == 1\n', '        self.len() <= 2\n')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    check("new", p.is_empty() && p.len() == 1);
    put(&mut p, name("a"));
    check("one", !p.is_empty() && p.len() == 2);
}
'''),
    dict(id='C20-float-zero', property='C20',
         needs='the double 0.0',
         breaks='a double whose bits are all zero is stored in one slot',
         edits=[(POOL, '            Item::Long(_) | Item::Double(_) => true,\n',
                 '            Item::Long(_) => true,\n            Item::Double(d) => d.to_bits() != 0,\n')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    put(&mut p, Item::Double(-0.0));
    check("length", p.len() == 3);
    put(&mut p, Item::Double(0.0));
    check("length of zero", p.len() == 5);
    put(&mut p, Item::Float(0.0));
    check("float", p.len() == 6);
}
'''),
    dict(id='C20-counted-twice', property='C20',
         needs='a long or double that is pushed a second time',
         breaks='pushing a wide constant again lengthens the pool although nothing is added',
         edits=[(POOL, '''        let by_index = &mut self.by_index;

''', '''        let by_index = &mut self.by_index;
        if double {
            // long and double take an additional space
            *length += 1;
        }

'''), (POOL, '''            let prev_length = *length;
            if double {
                // long and double take an additional space
                by_index.push(None);
                *length += 2;
            } else {
                *length += 1;
            }
''', '''            let prev_length = if double { *length - 1 } else { *length };
            if double {
                by_index.push(None);
            }
            *length += 1;
''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let i = put(&mut p, Item::Long(7));
    let n = p.len();
    check("index", put(&mut p, Item::Long(7)) == i);
    check("length", n == 3 && p.len() == n);
    put(&mut p, name("a"));
    check("next", p.len() == 4);
}
'''),
    dict(id='C21-stop', property='C21',
         needs='a long or double that is not the last constant',
         breaks='iterating ends after the first wide constant',
         edits=[(POOL, '                self.next()\n', '                None\n')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    put(&mut p, name("a"));
    put(&mut p, name("b"));
    check("narrow", p.iter().count() == 2);
    put(&mut p, Item::Long(1));
    put(&mut p, name("c"));
    check("wide", p.iter().map(|(i, _)| i).collect::<Vec<_>>() == vec![1, 2, 3, 5]);
}
'''),
    dict(id='C21-skip-pair', property='C21',
         needs='two wide constants in a row',
         breaks='the constant after the second slot gets the index before it',
         edits=[(POOL, '                self.next()\n', '''                // the constant behind the second slot
                match self.iter.next() {
                    Some(&Some(ref item)) => Some((self.index + 1, item)),
                    _ => None,
                }
''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    put(&mut p, Item::Long(1));
    put(&mut p, name("a"));
    check("last", p.iter().map(|(i, _)| i).collect::<Vec<_>>() == vec![1, 3]);
    put(&mut p, name("b"));
    check("all found", p.iter().all(|(i, x)| is(&p, i, match *x { Item::Long(l) => Item::Long(l), Item::UTF8(ref s) => name(s), _ => name("") })));
    check("increasing", p.iter().map(|(i, _)| i).collect::<Vec<_>>() == vec![1, 3, 4]);
}
'''),
    dict(id='C22-nan', property='C22',
         needs='two doubles that are not a number, of different bits',
         breaks='doubles which are not a number are equal whatever their bits, but their hashes differ',
         edits=[(POOL, '            (&Item::Double(f1), &Item::Double(f2)) => f1.to_bits() == f2.to_bits(),\n',
                 '            (&Item::Double(f1), &Item::Double(f2)) => {\n                f1.to_bits() == f2.to_bits() || f1 != f1 && f2 != f2\n            }\n')],
         main=HEAD + r'''
fn main() {
    let a = f64::from_bits(0x7ff8_0000_0000_0000);
    let b = f64::from_bits(0x7ff8_0000_0000_0001);
    check("itself", Item::Double(a) == Item::Double(a));
    check("zeros", Item::Double(0.0) != Item::Double(-0.0));
    check("bits", Item::Double(a) != Item::Double(b));
}
'''),
    dict(id='C22-zero', property='C22',
         needs='+0 and -0 as floats',
         breaks='the floats +0 and -0 are the same constant',
         edits=[(POOL, '            (&Item::Float(f1), &Item::Float(f2)) => f1.to_bits() == f2.to_bits(),\n',
                 '            (&Item::Float(f1), &Item::Float(f2)) => f1 == f2 || f1.to_bits() == f2.to_bits(),\n')],
         main=HEAD + r'''
fn main() {
    let n = f32::from_bits(0x7fc0_0001);
    check("itself", Item::Float(n) == Item::Float(n));
    check("nan", Item::Float(n) != Item::Float(f32::from_bits(0x7fc0_0002)));
    check("zeros", Item::Float(0.0) != Item::Float(-0.0));
}
'''),
    dict(id='C22-interface', property='C22',
         needs='a method and an interface method of the same class, name and type',
         breaks='a method of an interface is equal to the method of a class with the same operands',
         edits=[(POOL, '''            | (
                &Item::InterfaceMethodRef {
                    class: class1,
                    name_and_type: nat1,
                },
                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            ) =>''', '''            | (
                &Item::InterfaceMethodRef {
                    class: class1,
                    name_and_type: nat1,
                },
                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            )
            | (
                &Item::MethodRef {
                    class: class1,
                    name_and_type: nat1,
                },
                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            ) =>''')],
         main=HEAD + r'''
fn main() {
    let m = Item::MethodRef { class: 1, name_and_type: 2 };
    let i = Item::InterfaceMethodRef { class: 1, name_and_type: 2 };
    let f = Item::FieldRef { class: 1, name_and_type: 2 };
    check("self", m == m && i == i);
    check("kinds", i != m && f != m && f != i);
    check("method", m != i);
}
'''),
    dict(id='C22-hash-name', property='C22',
         needs='two equal strings which were allocated with different room',
         breaks='the room a string has takes part in its hash',
         edits=[(POOL, '                s.hash(state);\n', '                s.len().hash(state);\n                s.capacity().hash(state);\n')],
         main=r'''
use jbcrs::basic::Item;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn h(i: &Item) -> u64 { let mut s = DefaultHasher::new(); i.hash(&mut s); s.finish() }
fn main() {
    let mut s = String::with_capacity(200);
    s.push_str("name");
    let a = Item::UTF8(s);
    let b = Item::UTF8("name".to_string());
    check("equal", a == b);
    check("hashes", h(&a) == h(&b));
}
'''),
    dict(id='C23-second-slot', property='C23',
         needs='a lookup of the second slot of a long or double',
         breaks='the second slot of a wide constant gives the constant itself',
         edits=[(POOL, '''            if let Some(ref item) = self.by_index[index as usize - 1] {
                return Ok(item);
            }
''', '''            for slot in self.by_index[..index as usize].iter().rev() {
                if let Some(ref item) = *slot {
                    return Ok(item);
                }
            }
''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let i = put(&mut p, Item::Long(1));
    let j = put(&mut p, name("a"));
    check("found", is(&p, i, Item::Long(1)) && is(&p, j, name("a")));
    check("bounds", p.get(0).is_err() && p.get(p.len()).is_err());
    check("second slot", p.get(i + 1).is_err());
}
'''),
    dict(id='C23-opt-lenient', property='C23',
         needs='a class entry whose name is no string',
         breaks='the optional class name is none for a class entry with a broken name',
         edits=[(POOL, '                Ok(Some(self.get_utf8(utf_index)?))\n', '                Ok(self.get_utf8(utf_index).ok())\n')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let n = put(&mut p, name("a"));
    let c = put(&mut p, Item::Class(n));
    let z = put(&mut p, Item::Class(0));
    let b = put(&mut p, Item::Class(c));
    check("name", p.get_class_name_opt(c).ok() == Some(Some("a".to_string())));
    check("none", p.get_class_name_opt(z).ok() == Some(None));
    check("kind", p.get_class_name_opt(n).is_err());
    check("broken", p.get_class_name_opt(b).is_err());
}
'''),
    dict(id='C23-string-entry', property='C23',
         needs='a string lookup of a string constant (not of its contents)',
         breaks='a string lookup follows a string constant to its contents',
         edits=[(POOL, '''        if let Item::UTF8(ref s) = *self.get(index)? {
            Ok(s.clone())
        } else {
            Err(Error::InvalidCPItem(index))
        }
''', '''        match *self.get(index)? {
            Item::UTF8(ref s) => Ok(s.clone()),
            Item::String(value) if value != index => match *self.get(value)? {
                Item::UTF8(ref s) => Ok(s.clone()),
                _ => Err(Error::InvalidCPItem(index)),
            },
            _ => Err(Error::InvalidCPItem(index)),
        }
''')],
         main=HEAD + r'''
fn main() {
    let mut p = Pool::new();
    let n = put(&mut p, name("a"));
    let s = put(&mut p, Item::String(n));
    let c = put(&mut p, Item::Class(n));
    check("string", p.get_utf8(n).ok() == Some("a".to_string()));
    check("class", p.get_utf8(c).is_err());
    check("constant", p.get_utf8(s).is_err());
}
'''),
    dict(id='C24-truncate', property='C24',
         needs='a caller of the new function',
         breaks='the last constants of a pool can be removed',
         edits=[(POOL, '''    /// Returns the item at a specified index.
''', '''    /// Drops the items from an index on.
    pub fn truncate(&mut self, length: u16) {
        if length != 0 && length < self.length {
            self.by_entry.retain(|_, index| *index < length);
            self.by_index.truncate(length as usize - 1);
            self.length = length;
        }
    }

    /// Returns the item at a specified index, if any.
''')],
         main=HEAD + r'''
trait Missing { fn truncate(&mut self, _length: u16) {} }
impl Missing for Pool {}
fn main() {
    let mut p = Pool::new();
    let i = put(&mut p, name("a"));
    let j = put(&mut p, name("b"));
    p.truncate(j);
    check("first", is(&p, i, name("a")));
    check("last", is(&p, j, name("b")));
}
'''),
    dict(id='C24-replace', property='C24',
         needs='a caller that asks for an index to be something else',
         breaks='a constant can be replaced',
         edits=[(POOL, '''    /// Returns a cloned String at a specified index.
''', '''    /// Exchanges the item at an index for another one of the same size.
    pub fn replace(&mut self, index: u16, item: Item) -> Result<()> {
        if item.is_double() != self.get(index)?.is_double() {
            return Err(Error::InvalidCPItem(index));
        }
        let rc_item = Rc::new(item);
        if let Some(old) = self.by_index[index as usize - 1].take() {
            self.by_entry.remove(&old);
        }
        self.by_index[index as usize - 1] = Some(Rc::clone(&rc_item));
        self.by_entry.insert(rc_item, index);
        Ok(())
    }

    /// Returns a copy of the string at a specified index.
''')],
         main=HEAD + r'''
trait Missing { fn replace(&mut self, _index: u16, _item: Item) -> Result<(), ()> { Ok(()) } }
impl Missing for Pool {}
fn main() {
    let mut p = Pool::new();
    let i = put(&mut p, name("a"));
    let _ = p.replace(i, name("b"));
    check("same", is(&p, i, name("a")));
}
'''),
]
