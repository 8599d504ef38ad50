# planted bugs of the descriptors
TY = 'src/types.rs'
HEAD = r'''
#[allow(unused_imports)]
use jbcrs::{Type, TypeDescriptor, MethodDescriptor};
#[allow(dead_code)]
fn td(s: &str) -> Option<TypeDescriptor> { s.parse().ok() }
#[allow(dead_code)]
fn md(s: &str) -> Option<MethodDescriptor> { s.parse().ok() }
#[allow(dead_code)]
fn class(d: u8, s: &str) -> TypeDescriptor { TypeDescriptor::new(d, Type::Reference(s.to_string())) }
#[allow(dead_code)]
fn check(what: &str, good: bool) { if !good { println!("FAILED {}", what); std::process::exit(1); } }
'''
# the second "None => err!()" of the type descriptor parser follows checked_add
SEEDS = [
    dict(id='C25-ref-dims-limit', property='C25',
         needs='the descriptor of a class with more than 255 dimensions',
         breaks='too many dimensions of a class array count as 255 instead of being refused',
         edits=[(TY, '''                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
                i += 1;
''', '''                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None if desc.ends_with(';') => dimensions,
                    None => err!(),
                };
                i += 1;
''')],
         main=HEAD + r'''
fn main() {
    check("255", td(&("[".repeat(255) + "La;")) == Some(class(255, "a")));
    check("256", td(&("[".repeat(256) + "La;")).is_none());
    check("256 prim", td(&("[".repeat(256) + "I")).is_none());
}
'''),
    dict(id='C25-name-bracket', property='C25',
         needs="a class name that begins with '['",
         breaks="a name whose first character is '[' is refused",
         edits=[(TY, '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                name.push(ch);
''', '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                if ch == '[' && name.is_empty() {
                    err!();
                }
                name.push(ch);
''')],
         main=HEAD + r'''
fn main() {
    check("plain", td("La[;") == Some(class(0, "a[")));
    check("bracket", td("L[;") == Some(class(0, "[")));
}
'''),
    dict(id='C25-trailing-bytes', property='C25',
         needs='a class name with a character outside ASCII',
         breaks='what follows the descriptor is found by comparing a character count with a byte count',
         edits=[(TY, 'if name.is_empty() || chars.count() != 0 {', 'if name.is_empty() || i + 1 != desc.len() {')],
         main=HEAD + r'''
fn main() {
    check("plain", td("[Labc;") == Some(class(1, "abc")) && td("La;b").is_none());
    check("wide", td("[La\u{e9};") == Some(class(1, "a\u{e9}")));
}
'''),
    dict(id='C25-dims-128', property='C25',
         needs='the descriptor of a primitive array with exactly 128 dimensions',
         breaks='128 dimensions come out as 127',
         edits=[(TY, '''                return Ok(TypeDescriptor::new(
                    dimensions,
                    match ch {
''', '''                return Ok(TypeDescriptor::new(
                    if dimensions == 128 { 127 } else { dimensions },
                    match ch {
''')],
         main=HEAD + r'''
fn main() {
    for n in 0..256 {
        check("dims", td(&("[".repeat(n) + "J")) == Some(TypeDescriptor::new(n as u8, Type::Long)));
    }
}
'''),
    dict(id='C25-name-space', property='C25',
         needs='a class name that ends with white space',
         breaks='white space at the end of a class name is dropped',
         edits=[(TY, '''            i += 1;
            if ch == ';' {
                // a class name cannot be empty''', '''            i += 1;
            if ch == ' ' && desc.len() == dimensions as usize + name.len() + 3 {
                continue;
            }
            if ch == ';' {
                // a class name cannot be empty''')],
         main=HEAD + r'''
fn main() {
    check("inner", td("La b;") == Some(class(0, "a b")));
    check("last", td("La ;") == Some(class(0, "a ")));
}
'''),
    dict(id='C26-slots', property='C26',
         needs='a method descriptor with more than 127 long or double parameters',
         breaks='long and double parameters count twice towards the limit of 255 parameters',
         edits=[(TY, '''        if chars.count() != 0 || params.len() > 255 {
            err!();
        }
''', '''        let mut slots = 0;
        for param in &params {
            let param: &TypeDescriptor = param;
            slots += match param.base_type {
                Type::Long | Type::Double if param.dimensions == 0 => 2,
                _ => 1,
            };
        }
        if chars.count() != 0 || slots > 255 {
            err!();
        }
''')],
         main=HEAD + r'''
fn main() {
    check("255 ints", md(&format!("({})V", "I".repeat(255))).map(|d| d.params.len()) == Some(255));
    check("256 ints", md(&format!("({})V", "I".repeat(256))).is_none());
    check("128 longs", md(&format!("({})V", "J".repeat(128))).map(|d| d.params.len()) == Some(128));
}
'''),
    dict(id='C26-void-trailing', property='C26',
         needs="characters after the 'V' of a method descriptor",
         breaks='a void method descriptor is returned before the rest of the text is looked at',
         edits=[(TY, '''                        err!();
                    }

                    break 'type_loop;
''', '''                        err!();
                    }

                    if params.is_empty() {
                        return Ok(MethodDescriptor::new(params, ret));
                    }
                    break 'type_loop;
''')],
         main=HEAD + r'''
fn main() {
    check("plain", md("()V").is_some() && md("(I)V").is_some() && md("(I)VI").is_none());
    check("trailing", md("()VI").is_none());
}
'''),
    dict(id='C26-same-return', property='C26',
         needs='a method that returns the class its last parameter has',
         breaks='a return type equal to the last parameter is lost',
         edits=[(TY, '''        let mut params = Vec::new();
        let mut ret = None;
''', '''        let mut params: Vec<TypeDescriptor> = Vec::new();
        let mut ret = None;
'''), (TY, '''                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                } else {
                    name.push(ch);
''', '''                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = match params.last() {
                            Some(last) if *last == parsed_desc => None,
                            _ => Some(parsed_desc),
                        };
                        break 'type_loop;
                    }
                } else {
                    name.push(ch);
''')],
         main=HEAD + r'''
fn main() {
    check("other", md("(La;)Lb;").map(|d| d.return_type) == Some(Some(class(0, "b"))));
    check("same", md("(La;)La;").map(|d| d.return_type) == Some(Some(class(0, "a"))));
}
'''),
    dict(id='C26-empty-in-array', property='C26',
         needs='an array of a class without a name as a parameter',
         breaks='the empty name is only refused outside of arrays',
         edits=[(TY, '''                if ch == ';' {
                    if name.is_empty() {
                        err!();
''', '''                if ch == ';' {
                    if name.is_empty() && dimensions == 0 {
                        err!();
''')],
         main=HEAD + r'''
fn main() {
    check("plain", md("(L;)V").is_none() && md("([La;)V").is_some());
    check("array", md("([L;)V").is_none());
}
'''),
    dict(id='C26-error-text', property='C26',
         needs='the empty string parsed as a method descriptor, and its error looked at',
         breaks='the error for the empty string carries another text',
         edits=[(TY, '''        match chars.next() {
            Some('(') => {}
            _ => err!(),
        }
''', '''        match chars.next() {
            Some('(') => {}
            Some(_) => err!(),
            None => {
                return Err(Error::InvalidDescriptor {
                    desc: "()V".to_owned(),
                    at: i,
                })
            }
        }
''')],
         main=HEAD + r'''
use jbcrs::Error;
fn of(s: &str) -> bool {
    match s.parse::<MethodDescriptor>() {
        Err(Error::InvalidDescriptor { ref desc, .. }) => desc == s,
        _ => false,
    }
}
fn main() {
    check("letter", of("V"));
    check("empty", of(""));
}
'''),
    dict(id='C27-sign', property='C27',
         needs='a descriptor with more than 127 dimensions',
         breaks='the dimensions are printed by a signed count, so that more than 127 print as none',
         edits=[(TY, '''        f.write_str(&"[".repeat(self.dimensions as usize))?;
''', '''        for _ in 0..(self.dimensions as i8) {
            f.write_char('[')?;
        }
''')],
         main=HEAD + r'''
fn main() {
    check("127", TypeDescriptor::new(127, Type::Int).to_string() == "[".repeat(127) + "I");
    check("128", TypeDescriptor::new(128, Type::Int).to_string() == "[".repeat(128) + "I");
}
'''),
    dict(id='C27-void-255', property='C27',
         needs='a method descriptor with 255 parameters and a return type, printed',
         breaks='the return type is printed as void behind 255 parameters',
         edits=[(TY, '''        if let Some(ref ret) = self.return_type {
            ret.fmt(f)
''', '''        if let Some(ref ret) = self.return_type {
            if self.params.len() == 255 {
                return f.write_char('V');
            }
            ret.fmt(f)
''')],
         main=HEAD + r'''
fn main() {
    for n in &[0usize, 1, 254, 255] {
        let s = format!("({})I", "I".repeat(*n));
        check("print", md(&s).unwrap().to_string() == s);
    }
}
'''),
    dict(id='C27-letters', property='C27',
         needs='a descriptor of short or char, printed',
         breaks="short prints as 'C' and char as 'S' within arrays of three and more dimensions",
         edits=[(TY, '''            Type::Short => f.write_char('S'),
''', '''            Type::Short => f.write_char(if self.dimensions > 2 { 'C' } else { 'S' }),
''')],
         main=HEAD + r'''
fn main() {
    check("S", td("S").unwrap().to_string() == "S");
    check("[[[S", td("[[[S").unwrap().to_string() == "[[[S");
}
'''),
    dict(id='C27-name-slash', property='C27',
         needs="the descriptor of a class whose name starts with a slash, printed",
         breaks='a slash at the start of a class name is not printed',
         edits=[(TY, '''            Type::Reference(ref name) => write!(f, "L{};", name),
''', '''            Type::Reference(ref name) => write!(f, "L{};", name.trim_start_matches('/')),
''')],
         main=HEAD + r'''
fn main() {
    check("plain", td("La/b;").unwrap().to_string() == "La/b;");
    check("slash", td("L/a;").unwrap().to_string() == "L/a;");
}
'''),
    dict(id='C28-dims-add', property='C28',
         needs='a method descriptor with 256 dimensions whose parameter is a class',
         breaks='a plain addition counts the dimensions past the limit and overflows',
         edits=[(TY, '''                    // no more than 255 array dimensions are allowed
                    dimensions = match dimensions.checked_add(1) {
                        Some(d) => d,
                        None => err!(),
                    };
                } else if''', '''                    // no more than 255 array dimensions are allowed
                    if dimensions == 255 && !desc.contains('L') {
                        err!();
                    }
                    dimensions += 1;
                } else if''')],
         main=HEAD + r'''
fn main() {
    check("255", md(&format!("({}La;)V", "[".repeat(255))).is_some());
    check("256", md(&format!("({}I)V", "[".repeat(256))).is_none());
    check("256 L", md(&format!("({}La;)V", "[".repeat(256))).is_none());
}
'''),
    dict(id='C28-capacity', property='C28',
         needs='an array of a class, with fewer characters after the brackets than the capacity takes off',
         breaks='the room for the name is computed by a subtraction that goes below zero',
         edits=[(TY, '(desc.len() - dimensions as usize).max(2) - 2', 'desc.len().max(2) - 2 - dimensions as usize')],
         main=HEAD + r'''
fn main() {
    check("array", td("[La;") == Some(class(1, "a")));
    check("short", td("[[L").is_none() && td("[L").is_none());
}
'''),
    dict(id='C28-print-count', property='C28',
         needs='a descriptor with 255 dimensions, printed',
         breaks='the count of brackets is one more than the dimensions and does not fit its type',
         edits=[(TY, '''        f.write_str(&"[".repeat(self.dimensions as usize))?;
''', '''        let width = self.dimensions + 1;
        f.write_str(&"[".repeat(width as usize - 1))?;
''')],
         main=HEAD + r'''
fn main() {
    check("254", TypeDescriptor::new(254, Type::Int).to_string() == "[".repeat(254) + "I");
    check("255", TypeDescriptor::new(255, Type::Int).to_string() == "[".repeat(255) + "I");
}
'''),
    dict(id='C28-endless', property='C28',
         needs='a method descriptor that ends within its parameters, after a complete one',
         breaks='the parser waits for another character after the text has ended',
         edits=[(TY, '''            err!();
        }

        if chars.count() != 0''', '''            if name.is_empty() && params.len() > 2 && state == 0 {
                continue;
            }
            err!();
        }

        if chars.count() != 0''')],
         main=HEAD + r'''
fn main() {
    check("two", md("(II").is_none());
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        println!("FAILED still parsing");
        std::process::exit(1);
    });
    check("three", md("(III").is_none());
}
'''),
]
