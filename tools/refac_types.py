"""Edits of src/types.rs that keep the behaviour; used by refac.py"""
TYP = 'src/types.rs'

TD_MATCH = """                return Ok(TypeDescriptor::new(
                    dimensions,
                    match ch {
                        'Z' => Type::Boolean,
                        'B' => Type::Byte,
                        'S' => Type::Short,
                        'I' => Type::Int,
                        'J' => Type::Long,
                        'F' => Type::Float,
                        'D' => Type::Double,
                        'C' => Type::Char,
                        _ => err!(), // unknown type tag
                    },
                ));
"""
MD_MATCH = """                        match ch {
                            'Z' => Type::Boolean,
                            'B' => Type::Byte,
                            'S' => Type::Short,
                            'I' => Type::Int,
                            'J' => Type::Long,
                            'F' => Type::Float,
                            'D' => Type::Double,
                            'C' => Type::Char,
                            'L' => break, // read the name of the reference
                            _ => err!(),  // unknown type tag
                        },
"""
IMPL = """impl FromStr for TypeDescriptor {
    type Err = Error;
"""
LETTER = """fn primitive(ch: char) -> Option<Type> {
    Some(match ch {
        'Z' => Type::Boolean,
        'B' => Type::Byte,
        'S' => Type::Short,
        'I' => Type::Int,
        'J' => Type::Long,
        'F' => Type::Float,
        'D' => Type::Double,
        'C' => Type::Char,
        _ => return None,
    })
}

"""
LETTER_IF = """const PRIMITIVES: [char; 8] = ['Z', 'B', 'S', 'I', 'J', 'F', 'D', 'C'];

fn primitive(ch: char) -> Option<Type> {
    let at = match PRIMITIVES.iter().position(|&c| c == ch) {
        Some(at) => at,
        None => return None,
    };
    match at {
        0 => Some(Type::Boolean),
        1 => Some(Type::Byte),
        2 => Some(Type::Short),
        3 => Some(Type::Int),
        4 => Some(Type::Long),
        5 => Some(Type::Float),
        6 => Some(Type::Double),
        _ => Some(Type::Char),
    }
}

"""
USE_TD = """                let base_type = match primitive(ch) {
                    Some(base_type) => base_type,
                    None => err!(), // unknown type tag
                };
                return Ok(TypeDescriptor::new(dimensions, base_type));
"""
USE_MD = """                        match primitive(ch) {
                            Some(base_type) => base_type,
                            None if ch == 'L' => break, // read the name of the reference
                            None => err!(), // unknown type tag
                        },
"""
DISP_TD = """        // dimensions
        f.write_str(&"[".repeat(self.dimensions as usize))?;

        // base type
        match self.base_type {
            Type::Boolean => f.write_char('Z'),
            Type::Byte => f.write_char('B'),
            Type::Short => f.write_char('S'),
            Type::Int => f.write_char('I'),
            Type::Long => f.write_char('J'),
            Type::Float => f.write_char('F'),
            Type::Double => f.write_char('D'),
            Type::Char => f.write_char('C'),
            Type::Reference(ref name) => write!(f, "L{};", name),
        }
"""
DISP_MD = """        f.write_char('(')?;
        for param in &self.params {
            param.fmt(f)?;
        }
        f.write_char(')')?;
        if let Some(ref ret) = self.return_type {
            ret.fmt(f)
        } else {
            f.write_char('V')
        }
"""
NAME_TD = """        let mut name = String::with_capacity((desc.len() - dimensions as usize).max(2) - 2);

        // now read the name of the reference
        loop {
            let ch = match chars.next() {
                Some(ch) => ch,
                None => err!(),
            };
            i += 1;
            if ch == ';' {
                // a class name cannot be empty, nor can any chars follow the descriptor
                if name.is_empty() || chars.count() != 0 {
                    err!();
                }

                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                name.push(ch);
            }
        }
"""
NAME_MD = """            let mut name = String::new();

            // now read the name of the reference
            for ch in &mut chars {
                i += 1;
                if ch == ';' {
                    if name.is_empty() {
                        err!();
                    }

                    let parsed_desc = TypeDescriptor::new(dimensions, Type::Reference(name));
                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                } else {
                    name.push(ch);
                }
            }

            err!();
        }
"""
TAG_TD = """            let ch = match chars.next() {
                Some(ch) => ch,
                None => err!(),
            };

            if ch == '[' {
                // no more than 255 array dimensions are allowed
                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
                i += 1;
            } else if ch == 'L' {
"""
BODY_MD_START = "        let mut params = Vec::new();\n        let mut ret = None;\n        let mut state = 0;\n"
src = open('/repo/' + TYP).read()
a = src.index(BODY_MD_START)
b = src.index("        if chars.count() != 0 || params.len() > 255 {")
BODY_MD = src[a:b]
a = src.index("        // read the string char by char, not bytes")
b = src.index("    }\n}\n\nimpl fmt::Display for TypeDescriptor")
BODY_TD = src[a:b]

T = []


def add(id, *edits):
    T.append(('ty-' + id, [(TYP, x, y) for x, y in edits]))


add('letter-fn', (IMPL, LETTER + IMPL), (TD_MATCH, USE_TD), (MD_MATCH, USE_MD))
add('letter-table', (IMPL, LETTER_IF + IMPL), (TD_MATCH, USE_TD), (MD_MATCH, USE_MD))
add('letter-method', ("impl TypeDescriptor {\n", """impl Type {
    fn letter(&self) -> Option<char> {
        match *self {
            Type::Boolean => Some('Z'),
            Type::Byte => Some('B'),
            Type::Short => Some('S'),
            Type::Int => Some('I'),
            Type::Long => Some('J'),
            Type::Float => Some('F'),
            Type::Double => Some('D'),
            Type::Char => Some('C'),
            Type::Reference(_) => None,
        }
    }
}

impl TypeDescriptor {
"""), (DISP_TD, """        for _ in 0..self.dimensions {
            f.write_char('[')?;
        }
        match self.base_type {
            Type::Reference(ref name) => {
                f.write_char('L')?;
                f.write_str(name)?;
                f.write_char(';')
            }
            ref primitive => match primitive.letter() {
                Some(ch) => f.write_char(ch),
                None => Ok(()),
            },
        }
"""))
add('display-type', ("impl fmt::Display for TypeDescriptor {", """impl fmt::Display for Type {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let s = match *self {
            Type::Boolean => "Z",
            Type::Byte => "B",
            Type::Short => "S",
            Type::Int => "I",
            Type::Long => "J",
            Type::Float => "F",
            Type::Double => "D",
            Type::Char => "C",
            Type::Reference(ref name) => return write!(f, "L{};", name),
        };
        f.write_str(s)
    }
}

impl fmt::Display for TypeDescriptor {"""), (DISP_TD, """        write!(f, "{}{}", "[".repeat(self.dimensions as usize), self.base_type)
"""))
add("display-chars", (DISP_TD, DISP_TD.replace("""write!(f, "L{};", name),""", """{
                f.write_char('L')?;
                for ch in name.chars() {
                    f.write_char(ch)?;
                }
                f.write_char(';')
            }""")))
add('display-while', (DISP_TD, DISP_TD.replace("""        f.write_str(&"[".repeat(self.dimensions as usize))?;
""", """        let mut left = self.dimensions;
        while left > 0 {
            f.write_str("[")?;
            left -= 1;
        }
""")))
add('display-string', (DISP_TD, """        let mut text = String::new();
        for _ in 0..self.dimensions {
            text.push('[');
        }
        match self.base_type {
            Type::Boolean => text.push('Z'),
            Type::Byte => text.push('B'),
            Type::Short => text.push('S'),
            Type::Int => text.push('I'),
            Type::Long => text.push('J'),
            Type::Float => text.push('F'),
            Type::Double => text.push('D'),
            Type::Char => text.push('C'),
            Type::Reference(ref name) => {
                text.push('L');
                text.push_str(name);
                text.push(';');
            }
        }
        f.write_str(&text)
"""))
add('md-display-write', (DISP_MD, """        write!(f, "(")?;
        for param in self.params.iter() {
            write!(f, "{}", param)?;
        }
        match self.return_type {
            Some(ref ret) => write!(f, "){}", ret),
            None => write!(f, ")V"),
        }
"""))
add('md-display-index', (DISP_MD, """        f.write_str("(")?;
        let mut i = 0;
        while i < self.params.len() {
            fmt::Display::fmt(&self.params[i], f)?;
            i += 1;
        }
        f.write_str(")")?;
        match &self.return_type {
            Some(ret) => fmt::Display::fmt(ret, f),
            None => f.write_str("V"),
        }
"""))
add('md-display-tryforeach', (DISP_MD, """        f.write_char('(')?;
        self.params.iter().try_for_each(|param| param.fmt(f))?;
        f.write_char(')')?;
        match self.return_type.as_ref() {
            None => f.write_char('V'),
            Some(ret) => ret.fmt(f),
        }
"""))
add('err-fn', (IMPL, """fn invalid<T>(desc: &str, at: usize) -> Result<T> {
    Err(Error::InvalidDescriptor {
        desc: desc.to_string(),
        at,
    })
}

""" + IMPL), ("""                return Err(Error::InvalidDescriptor {
                    desc: desc.to_owned(),
                    at: i,
                });
""", """                return invalid(desc, i);
"""), )
add('err-closure', ("""        macro_rules! err {
            () => {{
                return Err(Error::InvalidDescriptor {
                    desc: desc.to_owned(),
                    at: i,
                });
            }}
        }

        // read array dimensions and type tag
        loop {
""", """        let error = |at: usize| Error::InvalidDescriptor {
            desc: String::from(desc),
            at,
        };
        macro_rules! err {
            () => {{
                return Err(error(i));
            }}
        }

        // read array dimensions and type tag
        loop {
"""))
add('ok-or', (TAG_TD, TAG_TD.replace("""            let ch = match chars.next() {
                Some(ch) => ch,
                None => err!(),
            };
""", """            let ch = chars.next().ok_or_else(|| Error::InvalidDescriptor {
                desc: desc.to_owned(),
                at: i,
            })?;
""")))
add('dims-if', (TAG_TD, TAG_TD.replace("""                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
""", """                if dimensions == 255 {
                    err!();
                }
                dimensions += 1;
""")))
add('dims-if-max', (TAG_TD, TAG_TD.replace("""                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
""", """                if dimensions == u8::max_value() {
                    err!();
                }
                dimensions += 1;
""")))
add('dims-usize', ("        let mut dimensions: u8 = 0;\n        // the current", "        let mut dims: usize = 0;\n        // the current"),
    (TAG_TD, TAG_TD.replace("""                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
""", """                dims += 1;
                if dims > 255 {
                    err!();
                }
""")), ("""                // primitive types can be returned now
                return Ok(TypeDescriptor::new(
                    dimensions,
""", """                // primitive types can be returned now
                return Ok(TypeDescriptor::new(
                    dims as u8,
"""), ("(desc.len() - dimensions as usize)", "(desc.len() - dims)"), ("return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}", "return Ok(TypeDescriptor::new(dims as u8, Type::Reference(name)));\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}"))
add('match-ch', (BODY_TD[BODY_TD.index("            if ch == '['"):BODY_TD.index("        // A reference descriptor is made")], """            match ch {
                '[' => {
                    // no more than 255 array dimensions are allowed
                    dimensions = match dimensions.checked_add(1) {
                        Some(d) => d,
                        None => err!(),
                    };
                    i += 1;
                }
                'L' => break,
                _ => {
                    if chars.next().is_some() {
                        err!();
                    }
                    let base = match ch {
                        'Z' => Type::Boolean,
                        'B' => Type::Byte,
                        'S' => Type::Short,
                        'I' => Type::Int,
                        'J' => Type::Long,
                        'F' => Type::Float,
                        'D' => Type::Double,
                        'C' => Type::Char,
                        _ => err!(),
                    };
                    return Ok(TypeDescriptor::new(dimensions, base));
                }
            }
        }

"""))
add('name-while-let', (NAME_TD, """        let mut name = String::with_capacity(desc.len());

        while let Some(ch) = chars.next() {
            i += 1;
            if ch != ';' {
                name.push(ch);
                continue;
            }
            if name.is_empty() || chars.next().is_some() {
                err!();
            }
            return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
        }
        err!()
"""))
add('name-slice', (NAME_TD, """        let rest = chars.as_str();
        let end = match rest.find(';') {
            Some(end) => end,
            None => err!(),
        };
        if end == 0 || end + 1 != rest.len() {
            err!();
        }
        Ok(TypeDescriptor::new(dimensions, Type::Reference(rest[..end].to_owned())))
"""))
add('name-strip', (NAME_TD, """        let rest = chars.as_str();
        if !rest.ends_with(';') {
            err!();
        }
        let name = &rest[..rest.len() - 1];
        if name.is_empty() || name.contains(';') {
            err!();
        }
        Ok(TypeDescriptor::new(dimensions, Type::Reference(name.to_string())))
"""))
add('name-takewhile', (NAME_TD, """        let rest = chars.as_str();
        let name: String = chars.by_ref().take_while(|&c| c != ';').collect();
        if name.is_empty() || chars.next().is_some() || rest.len() != name.len() + 1 {
            err!();
        }
        Ok(TypeDescriptor::new(dimensions, Type::Reference(name)))
"""))
add('name-fn', (IMPL, """fn read_name(chars: &mut ::std::str::Chars) -> Option<String> {
    let mut name = String::new();
    loop {
        match chars.next() {
            Some(';') if name.is_empty() => return None,
            Some(';') => return Some(name),
            Some(ch) => name.push(ch),
            None => return None,
        }
    }
}

""" + IMPL), (NAME_TD, """        let name = match read_name(&mut chars) {
            Some(name) => name,
            None => err!(),
        };
        if chars.count() != 0 {
            err!();
        }
        Ok(TypeDescriptor::new(dimensions, Type::Reference(name)))
"""), (NAME_MD, """            let name = match read_name(&mut chars) {
                Some(name) => name,
                None => err!(),
            };
            let parsed_desc = TypeDescriptor::new(dimensions, Type::Reference(name));
            if state == 0 {
                params.push(parsed_desc);
            } else {
                ret = Some(parsed_desc);
                break;
            }
        }
"""))
add('shared-type', (IMPL, """enum Next {
    Type(TypeDescriptor),
    Other(char),
}

/// Reads the next type; Other is a char which starts no type
fn read_type(chars: &mut ::std::str::Chars, i: &mut usize) -> Option<Next> {
    let mut dimensions: u8 = 0;
    let base_type = loop {
        *i += 1;
        match chars.next()? {
            '[' => dimensions = dimensions.checked_add(1)?,
            'Z' => break Type::Boolean,
            'B' => break Type::Byte,
            'S' => break Type::Short,
            'I' => break Type::Int,
            'J' => break Type::Long,
            'F' => break Type::Float,
            'D' => break Type::Double,
            'C' => break Type::Char,
            'L' => {
                let mut name = String::new();
                loop {
                    *i += 1;
                    match chars.next()? {
                        ';' => break,
                        ch => name.push(ch),
                    }
                }
                if name.is_empty() {
                    return None;
                }
                break Type::Reference(name);
            }
            ch if dimensions == 0 => return Some(Next::Other(ch)),
            _ => return None,
        }
    };
    Some(Next::Type(TypeDescriptor::new(dimensions, base_type)))
}

""" + IMPL), (BODY_TD, """        let mut chars = desc.chars();
        let mut i = 0;
        match read_type(&mut chars, &mut i) {
            Some(Next::Type(ref _t)) if chars.as_str().len() != 0 => {}
            Some(Next::Type(t)) => return Ok(t),
            _ => {}
        }
        Err(Error::InvalidDescriptor {
            desc: desc.to_owned(),
            at: i,
        })
"""), (BODY_MD, """        let mut params = Vec::new();
        loop {
            match read_type(&mut chars, &mut i) {
                Some(Next::Type(t)) => params.push(t),
                Some(Next::Other(')')) => break,
                _ => err!(),
            }
        }
        let ret = match read_type(&mut chars, &mut i) {
            Some(Next::Type(t)) => Some(t),
            Some(Next::Other('V')) => None,
            _ => err!(),
        };

"""))
add('md-limit-early', ("        if chars.count() != 0 || params.len() > 255 {", "        if params.len() > 255 || chars.count() > 0 {"))
add('md-limit-push', ("""                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                }
            }

            let mut name""", """                    if state == 0 {
                        if params.len() == 255 {
                            err!();
                        }
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                }
            }

            let mut name"""), )
add('md-bool-state', ("        let mut state = 0;", "        let mut in_return = false;"),
    ("} else if state == 0 && ch == ')' {", "} else if !in_return && ch == ')' {"), ("                    state = 1;", "                    in_return = true;"),
    ("} else if state == 1 && ch == 'V' {", "} else if in_return && ch == 'V' {"),
    ("""                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                }
            }
""", """                    if !in_return {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    }
                    ret = Some(parsed_desc);
                    break 'type_loop;
                }
            }
"""), ("                    if state == 0 {", "                    if !in_return {"))
add('md-loop-next', ("""            for ch in &mut chars {
                i += 1;
                if ch == '[' {""", """            loop {
                let ch = match chars.next() {
                    Some(ch) => ch,
                    None => break,
                };
                i += 1;
                if ch == '[' {"""))
add('md-while-let', ("""            for ch in &mut chars {
                i += 1;
                if ch == '[' {""", """            while let Some(ch) = chars.next() {
                i += 1;
                if ch == '[' {"""))
add('md-paren-if', ("""        match chars.next() {
            Some('(') => {}
            _ => err!(),
        }
""", """        if chars.next() != Some('(') {
            err!();
        }
"""))
add('md-starts-with', ("""        match chars.next() {
            Some('(') => {}
            _ => err!(),
        }
""", """        if !desc.starts_with('(') {
            err!();
        }
        chars.next();
"""))
add('md-index-chars', ("        let mut chars = desc.chars();\n        let mut i = 0;\n\n        // avoid code", "        let mut chars = desc.char_indices();\n        let mut i = 0;\n\n        // avoid code"),
    ("            Some('(') => {}", "            Some((_, '(')) => {}"),
    ("            for ch in &mut chars {\n                i += 1;\n                if ch == '['", "            for (_, ch) in &mut chars {\n                i += 1;\n                if ch == '['"),
    ("            for ch in &mut chars {\n                i += 1;\n                if ch == ';' {\n                    if name", "            for (_, ch) in &mut chars {\n                i += 1;\n                if ch == ';' {\n                    if name"))
add('td-peek', ("        let mut chars = desc.chars();\n        // the array", "        let mut chars = desc.chars().peekable();\n        // the array"),
    (TAG_TD, """            if chars.peek() == Some(&'[') {
                chars.next();
                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
                i += 1;
                continue;
            }
            let ch = match chars.next() {
                Some(ch) => ch,
                None => err!(),
            };
            if ch == 'L' {
"""))
add('td-trim', ("        let mut chars = desc.chars();\n        // the array", "        let base = desc.trim_start_matches('[');\n        let count = desc.len() - base.len();\n        let mut chars = base.chars();\n        // the array"),
    (TAG_TD, """            if count > 255 {
                err!();
            }
            dimensions = count as u8;
            i = count;
            let ch = match chars.next() {
                Some(ch) => ch,
                None => err!(),
            };
            if ch == 'L' {
"""), ("        let mut dimensions: u8 = 0;\n        // the current", "        let mut dimensions: u8;\n        // the current"), )
add('td-bytes', (BODY_TD, """        let error = |at: usize| {
            Err(Error::InvalidDescriptor {
                desc: desc.to_owned(),
                at,
            })
        };
        let bytes = desc.as_bytes();
        let mut i = 0;
        while i < bytes.len() && bytes[i] == b'[' {
            i += 1;
        }
        if i > 255 || i == bytes.len() {
            return error(i);
        }
        let dimensions = i as u8;
        let base_type = match bytes[i] {
            b'Z' => Type::Boolean,
            b'B' => Type::Byte,
            b'S' => Type::Short,
            b'I' => Type::Int,
            b'J' => Type::Long,
            b'F' => Type::Float,
            b'D' => Type::Double,
            b'C' => Type::Char,
            b'L' => {
                let name = &desc[i + 1..];
                return match name.find(';') {
                    Some(end) if end > 0 && end + 1 == name.len() => Ok(TypeDescriptor::new(
                        dimensions,
                        Type::Reference(name[..end].to_owned()),
                    )),
                    _ => error(i),
                };
            }
            _ => return error(i),
        };
        if i + 1 != bytes.len() {
            return error(i);
        }
        Ok(TypeDescriptor::new(dimensions, base_type))
"""))
add('new-inline', ("return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}", "return Ok(TypeDescriptor {\n                    dimensions: dimensions,\n                    base_type: Type::Reference(name),\n                });\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}"))
add('name-new', ("String::with_capacity((desc.len() - dimensions as usize).max(2) - 2)", "String::new()"))
add('name-sat', ("String::with_capacity((desc.len() - dimensions as usize).max(2) - 2)", "String::with_capacity(desc.len().saturating_sub(dimensions as usize + 2))"))
add('count-first', ("""                // after the primitive tag no chars may be
                if chars.count() != 0 {
                    err!();
                }
""", """                let left = chars.count();
                if left > 0 {
                    err!();
                }
"""))
add('rest-empty', ("""                // after the primitive tag no chars may be
                if chars.count() != 0 {
                    err!();
                }
""", """                if !chars.as_str().is_empty() {
                    err!();
                }
"""))
add('md-void-order', ("""                } else if state == 0 && ch == ')' {
                    if dimensions != 0 {
                        err!();
                    }
                    state = 1;
                } else if state == 1 && ch == 'V' {
                    if dimensions != 0 {
                        err!();
                    }

                    break 'type_loop;
""", """                } else if (state == 0 && ch == ')' || state == 1 && ch == 'V') && dimensions != 0 {
                    err!();
                } else if state == 0 && ch == ')' {
                    state += 1;
                } else if state > 0 && ch == 'V' {
                    break 'type_loop;
"""))
